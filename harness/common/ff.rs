//! A model of the FFmpeg C libraries: one container with a video stream and possibly packets of
//! another stream, one codec that hands out each frame after a delay, buffers with padded rows.
#![allow(non_snake_case)]
use crate::ve;
use ffmpeg_sys_the_third as av;
use std::os::raw::{c_char, c_int};
use std::ptr;

pub struct Model {
    pub fmt: c_int,
    pub w: usize,
    pub h: usize,
    pub xdec: usize,
    pub ydec: usize,
    pub bytes: usize,
    pub video: c_int,
    pub rate: (c_int, c_int),
    pub line: [usize; 3],
    /// frame, plane: the codec's buffers with padded rows
    pub data: Vec<[Vec<u8>; 3]>,
    /// for every packet of the container the stream it belongs to; -1 is a read error
    pub packets: Vec<c_int>,
    pub next: usize,
    pub sent: usize,
    pub got: usize,
    pub delay: usize,
    pub drain: bool,
}

pub static mut M: *mut Model = ptr::null_mut();
fn m() -> &'static mut Model {
    unsafe { &mut *M }
}
fn zero<T>() -> *mut T {
    unsafe { Box::into_raw(Box::new(std::mem::zeroed())) }
}
const EAGAIN: c_int = -11;

#[no_mangle]
pub unsafe extern "C" fn av_strerror(_: c_int, b: *mut c_char, n: usize) -> c_int {
    if n > 0 {
        *b = 0;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn avformat_network_init() -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn avformat_open_input(
    ps: *mut *mut av::AVFormatContext,
    _: *const c_char,
    _: *const av::AVInputFormat,
    _: *mut *mut av::AVDictionary,
) -> c_int {
    let c: *mut av::AVFormatContext = zero();
    let n = 2;
    let s: *mut [*mut av::AVStream; 2] = Box::into_raw(Box::new([ptr::null_mut(); 2]));
    for i in 0..n {
        let t: *mut av::AVStream = zero();
        let p: *mut av::AVCodecParameters = zero();
        (*t).index = i as c_int;
        (*t).codecpar = p;
        (*t).time_base = av::AVRational { num: 1, den: 1000 };
        (*t).avg_frame_rate = av::AVRational { num: 0, den: 1 };
        if i as c_int == m().video {
            (*t).avg_frame_rate = av::AVRational { num: m().rate.0, den: m().rate.1 };
            (*p).codec_type = av::AVMediaType::AVMEDIA_TYPE_VIDEO;
            (*p).codec_id = av::AVCodecID::AV_CODEC_ID_RAWVIDEO;
            (*p).format = m().fmt;
            (*p).width = m().w as c_int;
            (*p).height = m().h as c_int;
        } else {
            (*p).codec_type = av::AVMediaType::AVMEDIA_TYPE_AUDIO;
        }
        (*s)[i] = t;
    }
    (*c).nb_streams = n as u32;
    (*c).streams = s as *mut *mut av::AVStream;
    *ps = c;
    0
}
#[no_mangle]
pub unsafe extern "C" fn avformat_find_stream_info(_: *mut av::AVFormatContext, _: *mut *mut av::AVDictionary) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn avformat_close_input(p: *mut *mut av::AVFormatContext) {
    *p = ptr::null_mut();
}
#[no_mangle]
pub unsafe extern "C" fn av_find_best_stream(
    c: *mut av::AVFormatContext,
    k: av::AVMediaType,
    _: c_int,
    _: c_int,
    d: *mut *const av::AVCodec,
    _: c_int,
) -> c_int {
    if !d.is_null() {
        *d = av::avcodec_find_decoder(av::AVCodecID::AV_CODEC_ID_RAWVIDEO);
    }
    for i in 0..(*c).nb_streams as usize {
        if (*(**(*c).streams.add(i)).codecpar).codec_type == k {
            return i as c_int;
        }
    }
    -1
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_find_decoder(id: av::AVCodecID) -> *const av::AVCodec {
    let c: *mut av::AVCodec = zero();
    (*c).type_ = av::AVMediaType::AVMEDIA_TYPE_VIDEO;
    (*c).id = id;
    c
}
#[no_mangle]
pub unsafe extern "C" fn av_codec_is_decoder(_: *const av::AVCodec) -> c_int {
    1
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_alloc_context3(_: *const av::AVCodec) -> *mut av::AVCodecContext {
    let c: *mut av::AVCodecContext = zero();
    (*c).codec_type = av::AVMediaType::AVMEDIA_TYPE_UNKNOWN;
    (*c).pix_fmt = av::AVPixelFormat::AV_PIX_FMT_NONE;
    c
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_free_context(p: *mut *mut av::AVCodecContext) {
    *p = ptr::null_mut();
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_parameters_to_context(c: *mut av::AVCodecContext, p: *const av::AVCodecParameters) -> c_int {
    (*c).codec_type = (*p).codec_type;
    (*c).codec_id = (*p).codec_id;
    (*c).width = (*p).width;
    (*c).height = (*p).height;
    (*c).pix_fmt = std::mem::transmute((*p).format);
    0
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_parameters_alloc() -> *mut av::AVCodecParameters {
    zero()
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_parameters_copy(d: *mut av::AVCodecParameters, s: *const av::AVCodecParameters) -> c_int {
    ptr::copy_nonoverlapping(s, d, 1);
    0
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_parameters_free(p: *mut *mut av::AVCodecParameters) {
    *p = ptr::null_mut();
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_open2(c: *mut av::AVCodecContext, k: *const av::AVCodec, _: *mut *mut av::AVDictionary) -> c_int {
    (*c).codec = k;
    0
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_close(_: *mut av::AVCodecContext) -> c_int {
    0
}
#[no_mangle]
pub unsafe extern "C" fn av_init_packet(_: *mut av::AVPacket) {}
#[no_mangle]
pub unsafe extern "C" fn av_packet_unref(_: *mut av::AVPacket) {}
#[no_mangle]
pub unsafe extern "C" fn av_read_frame(_: *mut av::AVFormatContext, p: *mut av::AVPacket) -> c_int {
    let m = m();
    if m.next >= m.packets.len() {
        return av::AVERROR_EOF;
    }
    let s = m.packets[m.next];
    m.next += 1;
    if s < 0 {
        return av::AVERROR_INVALIDDATA;
    }
    (*p).stream_index = s;
    (*p).size = 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_send_packet(_: *mut av::AVCodecContext, p: *const av::AVPacket) -> c_int {
    let m = m();
    if m.drain {
        return av::AVERROR_EOF;
    }
    if p.is_null() || (*p).size == 0 {
        m.drain = true;
        return 0;
    }
    ve::prove("stream", (*p).stream_index == m.video);
    m.sent += 1;
    0
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_flush_buffers(_: *mut av::AVCodecContext) {
    let m = m();
    m.got = m.sent;
    m.drain = false;
}
unsafe fn describe(f: *mut av::AVFrame, line: [usize; 3]) {
    for q in 0..3 {
        (*f).linesize[q] = line[q] as c_int;
    }
    (*f).format = m().fmt;
    (*f).width = m().w as c_int;
    (*f).height = m().h as c_int;
}
#[no_mangle]
pub unsafe extern "C" fn avcodec_receive_frame(_: *mut av::AVCodecContext, f: *mut av::AVFrame) -> c_int {
    let m = m();
    if m.got + m.delay < m.sent || (m.drain && m.got < m.sent) {
        describe(f, m.line);
        for q in 0..3 {
            (*f).data[q] = m.data[m.got][q].as_mut_ptr();
        }
        m.got += 1;
        return 0;
    }
    if m.drain {
        av::AVERROR_EOF
    } else {
        EAGAIN
    }
}
#[no_mangle]
pub unsafe extern "C" fn av_frame_alloc() -> *mut av::AVFrame {
    let f: *mut av::AVFrame = zero();
    (*f).format = -1;
    f
}
#[no_mangle]
pub unsafe extern "C" fn av_frame_free(f: *mut *mut av::AVFrame) {
    *f = ptr::null_mut();
}
#[no_mangle]
pub unsafe extern "C" fn av_frame_unref(f: *mut av::AVFrame) {
    *f = std::mem::zeroed();
    (*f).format = -1;
}
#[no_mangle]
pub unsafe extern "C" fn av_frame_get_buffer(f: *mut av::AVFrame, align: c_int) -> c_int {
    let m = m();
    let a = if align <= 0 { 32 } else { align as usize };
    let mut l = [0; 3];
    for q in 0..3 {
        let x = if q == 0 { 0 } else { m.xdec };
        l[q] = ((((*f).width as usize + (1 << x) - 1) >> x) * m.bytes + a - 1) / a * a;
        let y = if q == 0 { 0 } else { m.ydec };
        let rows = ((*f).height as usize + (1 << y) - 1) >> y;
        (*f).data[q] = Box::leak(vec![0u8; l[q] * rows].into_boxed_slice()).as_mut_ptr();
        (*f).linesize[q] = l[q] as c_int;
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn av_pix_fmt_desc_get(_: av::AVPixelFormat) -> *const av::AVPixFmtDescriptor {
    let d: *mut av::AVPixFmtDescriptor = zero();
    (*d).nb_components = 3;
    (*d).log2_chroma_w = m().xdec as u8;
    (*d).log2_chroma_h = m().ydec as u8;
    for i in 0..3 {
        (*d).comp[i].plane = i as c_int;
        (*d).comp[i].step = m().bytes as c_int;
    }
    d
}

use av::AVPixelFormat::*;
/// format, bit depth, sampling, the description of the siting is the decoder's own
const FMT: [(av::AVPixelFormat, usize, u64); 12] = [
    (AV_PIX_FMT_YUV420P, 8, 0),
    (AV_PIX_FMT_YUV422P, 8, 1),
    (AV_PIX_FMT_YUV444P, 8, 2),
    (AV_PIX_FMT_YUVJ420P, 8, 0),
    (AV_PIX_FMT_YUVJ422P, 8, 1),
    (AV_PIX_FMT_YUVJ444P, 8, 2),
    (AV_PIX_FMT_YUV420P10LE, 10, 0),
    (AV_PIX_FMT_YUV422P10LE, 10, 1),
    (AV_PIX_FMT_YUV444P10LE, 10, 2),
    (AV_PIX_FMT_YUV420P12LE, 12, 0),
    (AV_PIX_FMT_YUV422P12LE, 12, 1),
    (AV_PIX_FMT_YUV444P12LE, 12, 2),
];

use av_metrics::video::decode::Decoder;
use av_metrics::video::*;

/// 0: format, 1: width, 2: height, 3: frames, 4: row padding in bytes (luma; chroma gets half plus the sample size),
/// 5: packets of another stream and read errors in between
fn ff_<T: Pixel>() {
    let (fmt, bd, cs) = FMT[ve::param(0) as usize];
    let (w, h, n) = (ve::param(1) as usize, ve::param(2) as usize, ve::param(3) as usize);
    let pad = ve::param(4) as usize;
    let bytes = std::mem::size_of::<T>();
    let (xdec, ydec) = [(1, 1), (1, 0), (0, 0)][cs as usize];
    let dim = |q: usize| if q == 0 { (w, h) } else { ((w + xdec) >> xdec, (h + ydec) >> ydec) };
    let mut line = [0; 3];
    for q in 0..3 {
        line[q] = dim(q).0 * bytes + if q == 0 { pad } else { pad / 2 / bytes * bytes + if pad > 0 { bytes } else { 0 } };
    }
    let mut data = vec![];
    let mut samples: Vec<[Vec<T>; 3]> = vec![];
    for _ in 0..n {
        let mut f = [vec![], vec![], vec![]];
        let mut s = [vec![], vec![], vec![]];
        for q in 0..3 {
            let mut d = vec![T::cast_from(0u8); line[q] / bytes * dim(q).1];
            ve::fill(&mut d[..], (1 << bd) - 1);
            let mut b = vec![0u8; line[q] * dim(q).1];
            for (i, x) in d.iter().enumerate() {
                let x = u16::cast_from(*x);
                b[i * bytes] = x as u8;
                if bytes == 2 {
                    b[i * 2 + 1] = (x >> 8) as u8;
                }
            }
            s[q] = d;
            f[q] = b;
        }
        data.push(f);
        samples.push(s);
    }
    let video = if ve::param(5) > 0 { ve::pick(ve::u(0, 1)) as c_int } else { 0 };
    let mut packets = vec![];
    for _ in 0..n {
        if ve::param(5) > 0 {
            match ve::pick(ve::u(0, 2)) {
                1 => packets.push(1 - video),
                2 => packets.push(-1),
                _ => {}
            }
        }
        packets.push(video);
    }
    if ve::param(5) > 0 && ve::pick(ve::u(0, 1)) == 1 {
        packets.push(1 - video);
    }
    let rate = (ve::u(1, 100000) as c_int, ve::u(1, 2000) as c_int);
    let delay = ve::pick(ve::u(0, n as u64 + 1)) as usize;
    let model = Model {
        fmt: fmt as c_int,
        w,
        h,
        xdec,
        ydec,
        bytes,
        video,
        rate,
        line,
        data,
        packets,
        next: 0,
        sent: 0,
        got: 0,
        delay,
        drain: false,
    };
    unsafe { M = Box::into_raw(Box::new(model)) };
    let d = av_metrics_decoders::FfmpegDecoder::new("input");
    ve::prove("open", d.is_ok());
    let mut d = d.ok().unwrap();
    let i = d.get_video_details();
    ve::prove("size", i.width == w && i.height == h);
    ve::prove("depth", i.bit_depth == bd && d.get_bit_depth() == bd);
    ve::prove("sampling", i.chroma_sampling == crate::sampling(cs));
    ve::prove("rate", i.time_base.num == rate.1 as u64 && i.time_base.den == rate.0 as u64);
    for k in 0..n {
        let f = d.read_video_frame::<T>();
        ve::prove("frame", f.is_some());
        let f = f.unwrap();
        for q in 0..3 {
            let c = &f.planes[q].cfg;
            ve::prove("plane", (c.width, c.height) == dim(q));
            ve::prove("dec", q == 0 || (c.xdec, c.ydec) == (xdec, ydec));
            for y in 0..c.height {
                let o = y * (line[q] / bytes);
                let row: Vec<u32> = samples[k][q][o..o + c.width].iter().map(|x| u32::cast_from(*x)).collect();
                for x in 0..c.width {
                    let want = if q > 0 && i.chroma_sample_position == ChromaSamplePosition::Vertical {
                        crate::sited(&row, x, bd) as u32
                    } else {
                        row[x]
                    };
                    let got = u32::cast_from(f.planes[q].data[(c.yorigin + y) * c.stride + c.xorigin + x]);
                    ve::prove(["y", "u", "v"][q], got == want);
                }
            }
        }
    }
    for _ in 0..2 {
        ve::prove("end", d.read_video_frame::<T>().is_none());
    }
    ve::cover("done");
}

#[no_mangle]
pub extern "C" fn h_ff() {
    if FMT[ve::param(0) as usize].1 > 8 {
        ff_::<u16>()
    } else {
        ff_::<u8>()
    }
}
