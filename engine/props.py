"""What each check runs."""
LEVEL = 'other'
ASSUME = [
    'floating-point operations are exact real operations (equalities are decided up to the stated tolerance; rounding itself is not modelled)',
    'sequential consistency; rayon tasks of one frame run one after the other (they share no written data)',
]
PSNR, SSIM, MSSSIM, HVS, CIEDE, CIEDE_S = range(6)
C420, C422, C444, C400 = 0, 1, 2, 3
FRAME_HOW = ('LLVM IR of the library (whole program, taken from the working tree on every run) is executed symbolically on frames '
             'whose every sample is a symbolic integer over the full range of the bit depth; branches are merged or forked, array '
             'bounds, overflow and panics are obligations, and the returned scores are compared as terms with a reference model '
             'executed the same way. Obligations not already decided by normal form go to z3; counterexamples are replayed '
             'natively before they are reported.')


COST = {MSSSIM: 9, HVS: 3, CIEDE: 3, CIEDE_S: 2}


def J(h, *p, **k):
    if p[0] in (CIEDE, CIEDE_S):
        k.setdefault('vtol', 1e-3)      # 32-bit arithmetic near equality
    return dict(h=h, p=list(p), **k)


def D(m, bd, cs, w, h, xp=0, yp=0, mask=7, **k):
    return J('h_def', m, bd, cs, w, h, xp, yp, mask, **k)


def V(m, bd, cs, w, h, n, mask, every=0, **k):
    k.setdefault('cfg', dict(preempt=0))
    return J('h_vid', m, bd, cs, w, h, 0, 0, mask, n, 0, *([every] if every else []), **k)


def F(h, m, bd, cs, w, hh, xp=0, yp=0, **k):
    return J(h, m, bd, cs, w, hh, xp, yp, **k)


def B(step, pat, h, *p, **k):
    """a large frame: every step-th sample symbolic, the others fixed (content pat)"""
    return J(h, *(list(p) + [0] * (14 - len(p)) + [step, pat]), **k)


def c01(tier):
    js = [D(PSNR, bd, cs, 8, 8, 0, 0, 15) for bd in (8, 10) for cs in (0, 1, 2, 3)]
    js += [D(PSNR, 8, C420, 5, 3, 2, 1, 15), D(PSNR, 8, C444, 1, 1, 0, 0, 15), D(PSNR, 12, C422, 7, 4, 3, 3, 15),
           D(PSNR, 16, C420, 6, 6, 0, 0, 15), D(PSNR, 8, C420, 17, 3, 0, 0, 15), D(PSNR, 9, C444, 3, 18, 1, 0, 15)]
    js += [B(30000, 0, 'h_def', PSNR, 8, C400, 260, 260, 0, 0, 15, cost=4), B(900, 1, 'h_def', PSNR, 8, C420, 131, 67, 1, 1, 15), B(900, 2, 'h_def', PSNR, 10, C422, 20, 300, 0, 0, 15)]
    if tier != 'quick':
        js += [D(PSNR, bd, cs, w, h, xp, xp, 15) for bd in (8, 12) for cs in range(4) for w, h in ((1, 5), (9, 9), (16, 16), (33, 5), (5, 33))
               for xp in (0, 4)]
    return js


def c03(tier):
    js = [D(SSIM, 8, C444, 8, 8), D(SSIM, 8, C420, 5, 3, 2, 1), D(SSIM, 8, C444, 1, 1), D(SSIM, 10, C422, 7, 4),
          D(SSIM, 12, C420, 6, 9), D(SSIM, 8, C400, 16, 9, mask=1), D(SSIM, 8, C400, 3, 60, mask=1, cost=9),
          D(SSIM, 8, C420, 4, 109, mask=2, cost=4), D(SSIM, 8, C420, 3, 127, mask=4, cost=4), D(SSIM, 8, C444, 2, 2)]
    js += [B(5000, 2, 'h_def', SSIM, 8, C420, 200, 120, 0, 0, 15, cost=3), B(500, 1, 'h_def', SSIM, 10, C422, 90, 31, 2, 1, 7), B(2000, 2, 'h_def', SSIM, 8, C400, 21, 300, 0, 0, 1)]
    if tier != 'quick':
        js += [D(SSIM, 8, C400, 8, 60, mask=1, cost=9), D(SSIM, 10, C400, 5, 60, 3, 0, mask=1, cost=9),
               D(SSIM, 8, C400, 2, 125, mask=1, cost=9), D(SSIM, 8, C422, 4, 56, mask=7, cost=9),
               D(SSIM, 8, C420, 16, 16), D(SSIM, 12, C444, 12, 12), D(SSIM, 8, C400, 24, 24, mask=1)]
    return js


def c04(tier):
    js = [D(MSSSIM, 8, C400, 16, 16, mask=1, cost=5), D(MSSSIM, 10, C400, 17, 16, mask=1, cost=5),
          D(MSSSIM, 8, C400, 16, 19, 2, 1, mask=1, cost=6), D(MSSSIM, 8, C444, 16, 16, mask=2, cost=9)]
    js += [B(20000, 2, 'h_def', MSSSIM, 10, C420, 180, 170, 0, 0, 7, cost=6), B(3000, 2, 'h_def', MSSSIM, 8, C400, 70, 51, 2, 1, 1)]
    if tier != 'quick':
        js += [D(MSSSIM, 8, C400, 20, 16, mask=1, cost=9), D(MSSSIM, 12, C400, 16, 16, mask=1, cost=9),
               D(MSSSIM, 8, C400, 23, 18, mask=1, cost=9), D(MSSSIM, 8, C444, 16, 16, mask=4, cost=9),
               D(MSSSIM, 8, C420, 32, 32, mask=2, cost=12), D(MSSSIM, 8, C400, 32, 17, mask=1, cost=12)]
    return js


def c05(tier):
    js = [D(HVS, 8, C444, 8, 8, mask=1), D(HVS, 8, C444, 8, 8, mask=2), D(HVS, 10, C444, 8, 8, mask=4), D(HVS, 8, C400, 15, 8, mask=1),
          D(HVS, 8, C400, 8, 15, 2, 1, mask=1), D(HVS, 8, C400, 10, 17, mask=1), D(HVS, 8, C422, 16, 8, mask=4),
          D(HVS, 12, C444, 8, 8, mask=1, cost=9),
          D(HVS, 8, C400, 14, 8, mask=1), D(HVS, 8, C400, 8, 14, mask=1), D(HVS, 8, C400, 14, 14, 1, 1, mask=1)]
    js += [B(9999, 1, 'h_def', HVS, 10, C400, 8, 302, 0, 0, 1), B(9999, 1, 'h_def', HVS, 8, C444, 36, 29, 0, 0, 7, cost=4), B(99999, 1, 'h_def', HVS, 12, C420, 128, 58, 0, 0, 7)]
    if tier != 'quick':
        js += [D(HVS, 12, C444, 8, 8, mask=2, cost=9), D(HVS, 12, C444, 8, 8, mask=4, cost=9), D(HVS, 8, C420, 16, 16, mask=7, cost=5),
               D(HVS, 8, C400, 22, 22, mask=1, cost=5), D(HVS, 10, C400, 29, 8, mask=1), D(HVS, 9, C444, 8, 8, mask=7, cost=5)]
    return js


def c06(tier):
    js = [D(CIEDE, 8, C444, 1, 1, mask=1), D(CIEDE, 8, C444, 2, 2, mask=1), D(CIEDE, 8, C420, 3, 2, mask=1),
          D(CIEDE, 10, C422, 9, 2, mask=1), D(CIEDE, 12, C420, 8, 1, mask=1), D(CIEDE, 8, C400, 2, 2, mask=1),
          D(CIEDE, 8, C420, 9, 3, mask=1, cost=3), D(CIEDE_S, 8, C420, 5, 3, mask=1), D(CIEDE_S, 10, C444, 2, 2, mask=1),
          D(CIEDE_S, 12, C422, 3, 2, 1, 1, mask=1), D(CIEDE, 10, C420, 2, 5, mask=1)]
    js += [B(349, 2, 'h_def', CIEDE, 8, C444, 70, 5, 0, 0, 1), B(1500, 3, 'h_def', CIEDE, 10, C444, 33, 31, 0, 0, 1), B(7000, 2, 'h_def', CIEDE, 12, C444, 130, 33, 0, 0, 1), B(349, 1, 'h_def', CIEDE_S, 8, C444, 70, 5, 1, 1, 1)]
    if tier != 'quick':
        js += [D(m, bd, cs, w, h, mask=1, cost=4) for m in (CIEDE, CIEDE_S) for bd in (8, 10, 12) for cs in range(4)
               for w, h in ((1, 3), (8, 2), (11, 2), (17, 1))]
    return js


def c07(tier):
    js = [F('h_simd', CIEDE, 8, C420, 8, 1), F('h_simd', CIEDE, 8, C420, 11, 2), F('h_simd', CIEDE, 10, C422, 9, 2),
          F('h_simd', CIEDE, 8, C444, 3, 2), F('h_simd', CIEDE, 12, C420, 7, 2), F('h_simd', CIEDE, 12, C422, 8, 1),
          F('h_simd', CIEDE, 8, C400, 3, 2), F('h_simd', CIEDE, 8, C422, 17, 1, 1, 1, cost=3), F('h_simd', CIEDE, 10, C420, 16, 1, cost=3)]
    js += [B(349, 2, 'h_simd', CIEDE, 8, C444, 70, 5), B(1500, 1, 'h_simd', CIEDE, 12, C444, 33, 31)]
    if tier != 'quick':
        js += [F('h_simd', CIEDE, bd, cs, w, h, cost=3) for bd in (8, 10, 12) for cs in range(4) for w, h in ((1, 1), (15, 2), (16, 2), (24, 1), (10, 3))]
    return js


def sym_shapes(tier):
    s = [(PSNR, 8, C420, 5, 3), (PSNR, 10, C444, 4, 4), (SSIM, 8, C420, 6, 6), (SSIM, 10, C444, 8, 8), (SSIM, 8, C400, 2, 54),
         (MSSSIM, 8, C400, 16, 16), (HVS, 8, C444, 8, 8), (HVS, 10, C422, 16, 8), (HVS, 8, C400, 15, 8), (CIEDE, 8, C444, 2, 2), (CIEDE, 8, C420, 9, 2), (CIEDE, 10, C422, 3, 2),
         (CIEDE_S, 8, C420, 3, 3), (CIEDE, 8, C444, 1, 1), (CIEDE_S, 8, C444, 1, 1), (CIEDE_S, 10, C420, 1, 1), (HVS, 8, C400, 8, 14)]
    if tier != 'quick':
        s += [(PSNR, 12, C422, 9, 9), (SSIM, 12, C420, 12, 12), (SSIM, 8, C400, 4, 60), (MSSSIM, 10, C444, 16, 16), (MSSSIM, 8, C400, 20, 17),
              (HVS, 12, C444, 8, 8), (HVS, 8, C420, 16, 16), (CIEDE, 12, C420, 17, 2), (CIEDE, 8, C400, 4, 4)]
    return s




# large frames: step, content, shape
BIG = ((900, 2, PSNR, 8, C420, 131, 67), (2000, 2, SSIM, 8, C422, 90, 61), (3000, 2, MSSSIM, 8, C400, 70, 51), (9999, 1, HVS, 8, C400, 64, 50),
       (349, 2, CIEDE, 8, C444, 70, 5), (349, 1, CIEDE_S, 10, C444, 33, 31))


def c08(tier):
    return [F('h_sym', *s, cost=COST.get(s[0], 1)) for s in sym_shapes(tier)] + [B(k, p, 'h_sym', *s) for k, p, *s in BIG]


def c09(tier):
    return [F('h_ident', *s, cost=COST.get(s[0], 1)) for s in sym_shapes(tier)] + [B(k, p, 'h_ident', *s) for k, p, *s in BIG]


def c10(tier):
    s = [(PSNR, 8, C420, 5, 3, 2, 1), (PSNR, 10, C444, 4, 4, 16, 3), (SSIM, 8, C420, 6, 6, 2, 2), (SSIM, 10, C444, 8, 3, 1, 1), (SSIM, 8, C400, 2, 54, 1, 0),
         (MSSSIM, 8, C400, 16, 16, 2, 1), (HVS, 8, C444, 8, 8, 3, 2), (HVS, 10, C400, 9, 15, 1, 0), (HVS, 8, C400, 14, 8, 1, 2), (HVS, 8, C400, 8, 14, 2, 0), (CIEDE, 8, C444, 2, 2, 1, 1),
         (CIEDE, 8, C420, 9, 2, 2, 1), (CIEDE, 10, C422, 3, 2, 2, 2), (CIEDE_S, 8, C420, 3, 3, 4, 3), (HVS, 8, C422, 16, 8, 8, 8),
         (PSNR, 10, C444, 32, 2, 0, 1), (SSIM, 10, C400, 32, 2, 0, 1), (MSSSIM, 10, C400, 32, 16, 0, 1), (HVS, 10, C400, 32, 8, 0, 1),
         (CIEDE, 10, C444, 32, 2, 0, 1)]
    if tier != 'quick':
        s += [(m, bd, cs, w, h, xp, yp) for m, w, h in ((PSNR, 7, 5), (SSIM, 9, 7), (CIEDE, 10, 3), (HVS, 17, 16), (MSSSIM, 17, 18))
              for bd, cs in ((8, C444), (10, C400)) for xp, yp in ((0, 5), (7, 0), (18, 4))]
    return [F('h_pad', *x, cost=COST.get(x[0], 1)) for x in s] + [B(k, p, 'h_pad', *s, 1, 2) for k, p, *s in BIG if s[0] != HVS] + [B(9999, 2, 'h_pad', HVS, 8, C400, 36, 29, 3, 1)]


def c02(tier):
    APSNR = 6
    js = [V(m, bd, cs, w, h, n, 15) for m in (PSNR, APSNR) for bd, cs, w, h, n in
          ((8, C420, 3, 3, 2), (10, C444, 2, 2, 3), (8, C400, 2, 3, 2), (12, C422, 5, 2, 2), (8, C420, 2, 2, 2))]
    js += [V(m, bd, cs, 3, 3, 1, 47) for m in (PSNR, APSNR) for bd, cs in ((8, C420), (10, C444), (8, C400))]
    js += [V(PSNR, 8, C400, 1, 1, 131, 1), V(PSNR, 8, C420, 1, 1, 13, 15), V(APSNR, 8, C400, 1, 1, 131, 9, 65), V(APSNR, 10, C420, 2, 2, 37, 15, 18)]
    if tier != 'quick':
        js += [V(m, bd, cs, w, h, n, 15) for m in (PSNR, APSNR) for bd, cs in ((8, C420), (9, C422), (12, C444)) for w, h, n in
               ((4, 4, 3), (9, 3, 2), (1, 1, 5), (16, 9, 2))]
    return js


def c11(tier):
    js = []
    one = {PSNR: (4, 4), SSIM: (4, 4), MSSSIM: (16, 16), HVS: (8, 8), CIEDE: (4, 4), CIEDE_S: (4, 4)}
    for m, (w, h) in one.items():
        for p in (0, 1, 2):
            js.append(J('h_mis', m, 8, C444, w, h, 0, 0, 0, p, cost=COST.get(m, 1)))
        js.append(J('h_mis', m, 10, C444, w, h, 0, 0, 0, 1, cost=COST.get(m, 1)))
        for bd in (8, 10):
            js.append(J('h_mis', m, bd, C444, w, h, 0, 0, 2))
        # other shapes: same number of samples, one side different, other sampling
        for cs, x, y in ((C444, w * 2, h // 2), (C444, w + 1, h), (C444, w, h + 1), (C420, w, h), (C422, w, h), (C400, w, h)):
            js.append(J('h_mis', m, 8, C444, w, h, 0, 0, 1, cs, x, y))
        js.append(J('h_mis', m, 8, C420, w, h, 0, 0, 1, C422, w, h))
        js.append(J('h_mis', m, 10, C420, w, h, 0, 0, 1, C400, w, h))
    if tier != 'quick':
        js += [J('h_mis', m, bd, cs, w * 2 + 1, h + 2, 3, 2, 0, p, cost=COST.get(m, 1)) for m, (w, h) in one.items() for bd in (8, 12)
               for cs in (C420, C422) for p in (0, 1, 2)]
    return js


def pipe(m, cs, w, h, top, mode, lim, what, thr, join, pre=2, **k):
    return J('h_pipe', m, 8, cs, w, h, 0, 0, top, mode, lim, what, cfg=dict(threads=thr, join=join, preempt=pre), reps=25, watchdog=6,
             trust_schedule=True, **k)


SCHED = ((1, 0), (2, 0), (2, 1), (3, 0), (3, 1), (4, 0), (5, 1))


def c12(tier):
    js = [pipe(PSNR, C400, 1, 1, 3, 1, lim, 0, t, j, cost=5) for t, j in SCHED for lim in (0, 1)]
    js += [pipe(PSNR, C420, 1, 1, n, 3, 1, 0, t, 2, p, cost=8) for t, n, p in ((3, 3, 1), (4, 2, 0), (2, 3, 2), (3, 4, 0))]
    js += [pipe(m, C444, 1, 1, 0, 2, 0, 0, 3, 0) for m in (PSNR, 6, SSIM, CIEDE, CIEDE_S, MSSSIM, HVS)]
    js += [pipe(m, C420, 1, 1, 2, 1, 1, 0, 3, 0, 0, cost=3) for m in (6, SSIM, CIEDE, CIEDE_S)] + [pipe(HVS, C400, 8, 8, 1, 1, 1, 0, 3, 0, 0, cost=3), pipe(MSSSIM, C400, 16, 16, 1, 1, 1, 0, 3, 0, 0, cost=5)]
    js += [pipe(PSNR, C444, 2, 2, 9, 3, 1, 0, t, 0, 0, cost=3) for t in (3, 4)]
    if tier != 'quick':
        js += [pipe(PSNR, C420, 1, 1, 5, 1, 0, 0, t, j, cost=5) for t, j in SCHED]
        js += [pipe(PSNR, C400, 1, 1, n, 3, 1, 0, t, 2, p, cost=8) for t, n, p in ((3, 4, 2), (4, 4, 1), (5, 3, 1), (2, 6, 3))]
    return js


def c13(tier):
    js = [pipe(PSNR, C400, 1, 1, 3, 0, lim, 1, t, j, cost=5) for t, j in SCHED for lim in (0, 1)]
    js += [pipe(PSNR, C420, 1, 1, n, 3, 1, 1, t, 2, p, cost=8) for t, n, p in ((3, 3, 1), (4, 2, 0), (2, 3, 2), (3, 4, 0))]
    js += [pipe(PSNR, C400, 1, 1, 7, 3, 1, 1, t, j, 0, cost=3) for t in (1, 3, 4, 6) for j in (0, 1)]
    js += [pipe(PSNR, C400, 1, 1, 5, 0, 0, 1, 3, 0, 0, cost=6)]
    js += [pipe(m, C420, 1, 1, 2, 0, 0, 1, 3, 0, 0, cost=4) for m in (6, SSIM, CIEDE_S)]
    if tier != 'quick':
        js += [pipe(PSNR, C400, 1, 1, 5, 0, lim, 1, t, j, 2, cost=5) for t, j in SCHED for lim in (0, 1)]
        js += [pipe(PSNR, C400, 1, 1, n, 3, 1, 1, t, 2, p, cost=8) for t, n, p in ((3, 4, 2), (4, 4, 1), (5, 3, 1), (2, 6, 3))]
        js += [pipe(PSNR, C400, 1, 1, 12, 3, 1, 1, t, 0, 0, cost=3) for t in (1, 2, 3, 4, 5, 8)]
    return js


def c14(tier):
    js = [pipe(PSNR, C400, 1, 1, 3, 0, lim, 2, t, j, cost=5) for t, j in SCHED for lim in (0, 1)]
    js += [pipe(PSNR, C400, 1, 1, n, 3, 1, 2, t, 2, p, cost=8) for t, n, p in ((3, 3, 1), (4, 2, 0), (2, 3, 2), (3, 4, 0))]
    js += [pipe(PSNR, C400, 1, 1, 8, 3, 1, 2, t, j, 0, cost=3) for t in (1, 3, 4) for j in (0, 1)]
    js += [pipe(m, C420, 1, 1, 2, 0, 0, 2, 3, 0, 0, cost=4) for m in (6, SSIM, CIEDE_S)]
    if tier != 'quick':
        js += [pipe(PSNR, C400, 1, 1, 5, 0, lim, 2, t, j, 2, cost=5) for t, j in SCHED for lim in (0, 1)]
        js += [pipe(PSNR, C400, 1, 1, n, 3, 1, 2, t, 2, p, cost=8) for t, n, p in ((3, 4, 2), (4, 4, 1), (5, 3, 1), (2, 6, 3))]
    return js


def c15(tier):
    js = [V(SSIM, 8, C420, 3, 3, 2, 7), V(SSIM, 10, C422, 4, 4, 2, 7), V(SSIM, 8, C422, 4, 4, 3, 7), V(SSIM, 8, C400, 5, 4, 2, 7), V(MSSSIM, 8, C400, 16, 16, 2, 1, cost=9),
          V(HVS, 8, C444, 8, 8, 2, 7, cost=6), V(HVS, 10, C400, 8, 8, 2, 1, cost=5), V(CIEDE, 8, C420, 2, 2, 3, 1), V(CIEDE, 10, C444, 3, 1, 2, 1),
          V(CIEDE_S, 8, C422, 2, 2, 2, 1), V(CIEDE, 8, C400, 2, 2, 2, 1)]
    js += [V(SSIM, 8, C420, 4, 4, 1, 47), V(SSIM, 8, C400, 3, 3, 1, 47), V(MSSSIM, 8, C444, 16, 16, 1, 47, cost=9), V(HVS, 8, C422, 16, 8, 1, 47, cost=4),
           V(HVS, 8, C400, 8, 8, 1, 47), V(CIEDE, 8, C420, 3, 3, 1, 33), V(CIEDE, 10, C400, 3, 2, 1, 33), V(CIEDE_S, 12, C444, 2, 2, 1, 33)]
    # many frames
    js += [V(SSIM, 8, C400, 1, 1, 131, 1), V(MSSSIM, 8, C400, 16, 16, 13, 1, 13, cost=4), V(HVS, 8, C400, 8, 8, 37, 1, 37, cost=2), V(CIEDE, 8, C400, 1, 1, 131, 1, 65),
           V(CIEDE_S, 8, C400, 1, 1, 131, 1, 65), V(CIEDE, 8, C420, 2, 2, 13, 1, 7)]
    if tier != 'quick':
        js += [V(SSIM, 8, C444, 8, 8, 3, 7), V(SSIM, 12, C420, 6, 5, 4, 7), V(MSSSIM, 8, C400, 17, 16, 3, 1, cost=9), V(HVS, 8, C400, 15, 8, 3, 1, cost=9),
               V(CIEDE, 12, C422, 9, 2, 3, 1, cost=4), V(MSSSIM, 10, C420, 32, 32, 1, 47, cost=9)]
    return js


def c16(tier):
    js = [D(SSIM, 8, C420, 4, 4, 0, 0, 8), D(SSIM, 10, C422, 5, 4, 0, 0, 8), D(SSIM, 8, C444, 4, 4, 0, 0, 8), D(SSIM, 8, C400, 4, 4, 0, 0, 8),
          D(SSIM, 8, C420, 1, 1, 0, 0, 8), D(MSSSIM, 8, C444, 16, 16, 0, 0, 8, cost=9), D(MSSSIM, 8, C400, 16, 16, 0, 0, 8, cost=5)]
    js += [V(SSIM, 8, cs, 2, 2, 2, 8) for cs in range(4)]
    js += [V(MSSSIM, 8, C400, 16, 16, 2, 8, cost=6), V(SSIM, 8, C422, 1, 1, 37, 8, 18), V(SSIM, 8, C400, 1, 1, 37, 8)]
    for cs, w, h in ((C444, 8, 8), (C422, 16, 8), (C420, 16, 16), (C400, 8, 8)):
        for bd in (8,) if tier == 'quick' else (8, 10):
            p = (HVS, bd, cs, w, h, 0, 0, 8)
            js.append(J('h_def', *p, cost=5, **({} if cs == C400 else dict(known=('F19', list(p[:7]) + [16])))))
    for cs, w, h in ((C444, 8, 8), (C422, 16, 8), (C400, 8, 8)):
        for n in (1, 2):
            p = (HVS, 8, cs, w, h, 0, 0, 8, n, 0)
            js.append(J('h_vid', *p, cost=8, cfg=dict(preempt=0), **({} if cs == C400 else dict(known=('F19', list(p[:7]) + [16] + list(p[8:]))))))
    if tier != 'quick':
        js += [D(SSIM, 8, C420, 9, 9, 0, 0, 8), D(MSSSIM, 8, C422, 32, 16, 0, 0, 8, cost=12), V(SSIM, 10, C420, 5, 5, 3, 8)]
    return js


def c17(tier):
    js = []
    ws = (1, 2, 3, 4, 5, 6, 7, 9) if tier == 'quick' else tuple(range(1, 20)) + (33, 64, 65)
    for w in ws:
        js.append(J('h_chroma', 1, 8, w, 2, 0, 0, 0, 0))
        js.append(J('h_chroma', 1, 10, w, 2, 3, 0, 0, 1))
        js.append(J('h_chroma', 1, 8, w, 3, 1, 2, 1, 0))
        js.append(J('h_chroma', 1, 12, w, 2, 0, 1, 2, 0))
    for pos in (0, 2, 3, 4):
        for bd, w, h, x in ((8, 5, 3, 0), (10, 3, 2, 0), (12, 7, 2, 4), (8, 33, 2, 5)):
            js.append(J('h_chroma', pos, bd, w, h, x, 0, 0, 0))
            js.append(J('h_chroma', pos, bd, w, h, x, 3, 2, 0))
    js += [J('h_chroma', 1, 8, 6, 2, 0, 0, 0, 0), J('h_chroma', 1, 10, 6, 2, 0, 0, 0, 0, 1), J('h_chroma', 1, 9, 5, 2), J('h_chroma', 0, 10, 6, 2, 0, 0, 0, 0, 1)]
    return js


def y4m(cs, w, h, n, head=0, fh=0, mode=0, **k):
    return J('h_y4m', cs, w, h, n, head, fh, mode, **k)


def c18(tier):
    js = []
    for cs in range(14):
        js.append(y4m(cs, 3, 3, 2))
        js.append(y4m(cs, 4, 2, 1, 1, 1))
        js.append(y4m(cs, 1, 1, 1, 3, cfg=dict(read_chunk=5)))
    js += [y4m(0, 3, 2, 1, 2), y4m(0, 9, 3, 2), y4m(3, 13, 3, 1), y4m(7, 11, 2, 1, 1), y4m(11, 5, 5, 1), y4m(12, 10, 3, 2, 3, 1), y4m(1, 2, 5, 3, 0, 0, 0, cfg=dict(read_chunk=7)),
           y4m(4, 12, 3, 1), y4m(3, 65, 2, 1), y4m(9, 64, 2, 1)]
    if tier != 'quick':
        js += [y4m(cs, w, h, 2, hd, fh, cost=2) for cs in range(14) for w, h in ((16, 16), (17, 5), (1, 7), (7, 1), (33, 3)) for hd in (0, 1) for fh in (0, 1)]
    return js


def c19(tier):
    js = [y4m(cs, w, h, n, hd, fh, 1, cost=3, cfg=c) for cs, w, h, n, hd, fh, c in
          ((0, 2, 2, 2, 0, 0, {}), (4, 2, 2, 2, 0, 0, {}), (8, 3, 2, 2, 1, 0, {}), (12, 3, 2, 3, 0, 0, {}), (3, 3, 3, 1, 0, 1, {}), (9, 1, 1, 4, 2 * 0, 0, {}), (13, 1, 2, 2, 1, 1, {}),
           (0, 2, 2, 2, 0, 0, dict(read_chunk=4)), (1, 2, 2, 1, 2 * 0, 0, {}), (10, 2, 1, 2, 0, 0, dict(read_chunk=3)))]
    if tier != 'quick':
        js += [y4m(cs, w, h, 3, hd, hd, 1, cost=3) for cs in range(14) for w, h in ((2, 2), (5, 3)) for hd in (0, 1)]
    return js


def c20(tier):
    js = [J('h_spec', 0, bd, cs, w, h, 0, 0, n) for bd, cs, w, h, n in ((8, C400, 1, 1, 3), (10, C420, 3, 2, 4), (8, C444, 2, 2, 2), (12, C422, 1, 1, 6))]
    js += [y4m(cs, w, h, n, 0, 0, 2) for cs, w, h, n in ((0, 2, 2, 3), (3, 3, 2, 2), (12, 2, 2, 4), (11, 1, 1, 3), (7, 2, 1, 2))]
    if tier != 'quick':
        js += [J('h_spec', 0, 8, C420, 4, 4, 0, 0, 9)] + [y4m(cs, 3, 3, 5, 1, 1, 2) for cs in range(14)]
    return js


def c27(tier):
    # format, width, height, frames, row padding of the codec's buffers in bytes, other packets
    js = [J('h_ff', f, w, h, n, pad, 0, cost=2) for f in range(12) for w, h, n, pad in ((3, 3, 1, 0), (5, 2, 2, 7 if f < 6 else 6))]
    js += [J('h_ff', 0, 2, 2, n, p, 1, cost=2) for n, p in ((0, 0), (1, 2), (2, 0), (3, 1))] + [J('h_ff', 6, 2, 2, 1, 2, 1), J('h_ff', 0, 17, 1, 1, 15, 0), J('h_ff', 3, 33, 2, 1, 31, 0),
           J('h_ff', 0, 1, 1, 5, 0, 0), J('h_ff', 8, 1, 3, 3, 2, 0)]
    if tier != 'quick':
        js += [J('h_ff', f, w, h, n, pad, o, cost=4) for f in range(12) for w, h, n, pad, o in ((9, 4, 2, 2, 0), (16, 3, 1, 16, 0), (1, 5, 2, 0, 1), (2, 2, 3, 2, 1))]
    return js


def c24(tier):
    # depth, first coefficient, number of coefficients, allowed error in 1/1000
    return [J('h_dct', bd, k, 8, 12500) for bd in ((8, 10, 12) if tier == 'quick' else (8, 9, 10, 11, 12)) for k in range(0, 64, 8)]


def c25(tier):
    # power or cube root, scalar or vector, binade (exponent + 16), allowed relative error in 1e-8
    js = [J('h_col', f, s, e, 100, vtol=5e-3) for f, r in ((0, range(12, 18)), (1, range(9, 19))) for s in (0, 1) for e in r]
    if tier != 'quick':
        js += [J('h_col', f, s, e, 60, vtol=5e-3) for f, r in ((0, range(12, 18)), (1, range(9, 19))) for s in (0, 1) for e in r]
    return js


def shapes_rng(tier):
    s = []
    for w, h in ((1, 1), (1, 2), (2, 1), (3, 3), (5, 1), (1, 7)):
        for m in (PSNR, SSIM, MSSSIM, HVS):
            s.append((m, 8, C420, w, h))
    for cs in (C420, C422, C444, C400):
        for bd in (8, 10, 12):
            s += [(PSNR, bd, cs, 7, 5), (SSIM, bd, cs, 5, 4)]
        s += [(CIEDE, 8, cs, 3, 3), (CIEDE_S, 12, cs, 2, 3), (HVS, 8, cs, 9, 9), (MSSSIM, 8, cs, 17, 9), (PSNR, 9, cs, 3, 2), (SSIM, 11, cs, 3, 2)]
    s += [(CIEDE, 10, C420, 9, 1), (CIEDE, 12, C422, 17, 1), (CIEDE, 8, C420, 1, 1), (CIEDE, 10, C444, 1, 3), (CIEDE_S, 8, C420, 1, 1),
          (CIEDE, 12, C400, 40, 1), (CIEDE_S, 12, C400, 8, 6),
          (HVS, 8, C444, 8, 8), (HVS, 10, C400, 8, 9), (HVS, 8, C400, 14, 8), (HVS, 8, C400, 8, 14), (HVS, 8, C420, 16, 16), (MSSSIM, 8, C400, 16, 16), (MSSSIM, 12, C400, 16, 17),
          (SSIM, 8, C400, 1, 60), (SSIM, 8, C400, 2, 48), (SSIM, 8, C400, 60, 2), (SSIM, 8, C420, 4, 101), (SSIM, 12, C400, 1, 102), (PSNR, 12, C420, 33, 9)]
    return s


def rng(tier):
    js = []
    ok = {MSSSIM: 16, HVS: 8}
    for m, bd, cs, w, h in shapes_rng(tier):
        # the smallest plane decides whether a score is owed
        sub = {C420: (2, 2), C422: (2, 1)}.get(cs, (1, 1))
        least = min((w + sub[0] - 1) // sub[0], (h + sub[1] - 1) // sub[1])
        if m >= CIEDE and bd not in (8, 10, 12):
            continue
        js.append(J('h_rng', m, bd, cs, w, h, 0, 0, 1 if least >= ok.get(m, 1) else 0, cost=COST.get(m, 1)))
    js += [B(k, p, 'h_rng', *s, 0, 0, 1) for k, p, *s in BIG if s[0] != HVS] + [B(30000, 0, 'h_rng', PSNR, 8, C400, 260, 260, 0, 0, 1)]
    if tier != 'quick':
        js += [J('h_rng', m, bd, cs, w, h, 1, 2, 1, cost=COST.get(m, 1)) for m in (PSNR, SSIM, CIEDE, CIEDE_S) for bd in (8, 10, 12) for cs in range(4)
               for w, h in ((4, 3), (2, 5), (11, 2), (1, 4))]
        js += [J('h_rng', HVS, 12, C444, 8, 8, 0, 0, 1, cost=9), J('h_rng', HVS, 11, C400, 15, 8, 0, 0, 1, cost=9), J('h_rng', MSSSIM, 8, C444, 16, 16, 0, 0, 1, cost=9),
               J('h_rng', MSSSIM, 10, C420, 32, 32, 0, 0, 1, cost=12), J('h_rng', SSIM, 8, C400, 8, 60, 0, 0, 1, cost=9)]
    return js


def c23(tier):
    js = [J('h_mono', m, bd, cs, w, h, 0, 0, cost=COST.get(m, 1)) for m, bd, cs, w, h in
          ((PSNR, 8, C420, 3, 3), (PSNR, 10, C444, 4, 1), (SSIM, 8, C420, 4, 4), (SSIM, 10, C422, 5, 3), (SSIM, 8, C444, 1, 1), (MSSSIM, 8, C444, 16, 16),
           (HVS, 8, C444, 8, 8), (HVS, 8, C420, 16, 16), (HVS, 10, C422, 16, 8), (CIEDE, 8, C420, 3, 3), (CIEDE, 8, C444, 2, 2), (CIEDE, 10, C422, 5, 2),
           (CIEDE_S, 8, C420, 3, 3), (CIEDE_S, 12, C444, 3, 1), (CIEDE, 12, C420, 9, 1))]
    js += [B(k, p, 'h_mono', *s) for k, p, *s in BIG if s[0] not in (HVS, CIEDE)]
    js += [y4m(12, 2, 2, 1, 0, 0, 4), y4m(13, 2, 2, 1, 1, 0, 4), y4m(12, 3, 3, 2), y4m(13, 3, 1, 2)]
    js += [V(PSNR, 8, C400, 2, 2, 2, 15), V(SSIM, 8, C400, 3, 3, 2, 15), V(HVS, 8, C400, 8, 8, 1, 15, cost=4), V(CIEDE, 8, C400, 2, 2, 2, 1), V(MSSSIM, 8, C400, 16, 16, 1, 15, cost=9)]
    js += [pipe(PSNR, C400, 1, 1, 2, 1, 1, 1, 3, 0, 0)]
    if tier != 'quick':
        js += [J('h_mono', m, bd, cs, w, h, 2, 1, cost=COST.get(m, 1)) for m, w, h in ((PSNR, 9, 9), (SSIM, 9, 9), (CIEDE, 11, 3), (CIEDE_S, 5, 5), (HVS, 16, 18))
               for bd in (8, 12) for cs in range(3)]
    return js


def spec(jobs, what, bounds, outside, **k):
    return dict(jobs=jobs, how=what + ' ' + FRAME_HOW, bounds=bounds, outside=outside, **k)


SIZES = 'every sample value of the bit depth, for the frame shapes listed in runs (metric, bit depth, sampling, width, height, padding, planes)'
OUT = 'other frame shapes (quantified over by the listed samples of sizes only); rounding of floating-point operations'
VSIZES = 'every sample value of the bit depth, for the shapes and numbers of frames listed in runs'
MSIZES = 'every width and height up to 2^20 and decimation up to 2 of one plane (one plane at a time), every bit depth up to 2^32, for the shapes in runs'
PSIZES = ('every length of both videos up to the bound in runs, every limit (or none), every position of the failing pair, every sample value; 1 to 5 worker threads; '
          'work items in order, reversed, or interleaved at channel operations with up to two (thorough: three) preemptions')
POUT = 'longer videos, more preemptions, the internals of rayon and of the channel (both replaced by models of their documented behaviour)'
SCHEDA = ['crossbeam channel and scope and the rayon pool behave as documented (models in stubs/)']
YSIZES = 'every sample value, for the colour spaces, dimensions, header forms and numbers of frames listed in runs'
YOUT = 'other dimensions and header texts; the operating system calls are modelled (short reads included where read_chunk is given)'
FSIZES = ('every sample value and content of the row padding, every codec delay up to one more than the number of frames, every frame rate; for the pixel formats, '
          'sizes, row paddings and numbers of frames listed in runs; where so marked every placement of packets of another stream and of read errors')
FOUT = 'codecs that refuse a packet until a frame is taken; the FFmpeg libraries themselves'
FASSUME = 'the calls into libavformat and libavcodec behave as the model in harness/common/ff.rs says'
PROPS = {
    'C01': spec(c01, 'PSNR of every plane and the average against 10 log10(max^2 N/SSE), capped at 100.', SIZES, OUT),
    'C03': spec(c03, 'SSIM of each plane against the Gaussian-windowed definition.', SIZES + '; windows of 1 to 3 taps (quick), 5 (thorough)', OUT),
    'C04': spec(c04, 'MS-SSIM of a plane against the five-scale definition.', SIZES, OUT),
    'C05': spec(c05, 'PSNR-HVS of a plane against the masked, weighted DCT error of all 8x8 blocks at step 7.', SIZES, OUT),
    'C06': spec(c06, 'CIEDE score against the CIEDE2000 definition with the power and cube root approximations written out again.', SIZES, OUT),
    'C07': spec(c07, 'AVX2 row functions (vector intrinsics interpreted lane by lane) against the scalar path.', SIZES, OUT),
    'C08': spec(c08, 'score(a,b) = score(b,a).', SIZES, OUT),
    'C09': spec(c09, 'score(a,a) is the perfect score and no NaN.', SIZES, OUT),
    'C10': spec(c10, 'Frames with arbitrary padding against frames with the same visible samples and no padding.', SIZES + '; invisible samples arbitrary', OUT),
    'C02': spec(c02, 'PSNR and APSNR of videos (two decoders over stored frames) against the pooled and the mean formula, and against the frame function.', VSIZES, OUT),
    'C11': spec(c11, 'The geometry of a plane of one frame is arbitrary (and differs), frames of other shapes, and an arbitrary bit depth: the result is an error.', MSIZES, OUT),
    'C12': spec(c12, 'Videos of arbitrary length with a pair that cannot be compared at an arbitrary position, and arbitrary declared formats.', PSIZES, POUT, assume=SCHEDA),
    'C13': spec(c13, 'Video PSNR of arbitrary samples against the pairs 0..min(n1,n2,limit) by index.', PSIZES, POUT, assume=SCHEDA),
    'C14': spec(c14, 'The recorded calls of the progress callback.', PSIZES, POUT, assume=SCHEDA),
    'C15': spec(c15, 'Video scores against the mean of the linear frame values by definition, and against the frame function.', VSIZES, OUT),
    'C16': spec(c16, 'The average of frames and videos against the weighted mean of the linear values by definition.', VSIZES, OUT),
    'C17': spec(c17, 'convert_chroma_data against the filter written out again.', 'every source sample value, for the positions, depths, widths, heights, strides and paddings listed in runs', 'other widths and heights'),
    'C18': spec(c18, 'Y4M streams with arbitrary samples (and arbitrary digits in the frame rate) through the file decoder; the read, open and seek calls are modelled.', YSIZES, YOUT),
    'C19': spec(c19, 'Y4M streams that end at an arbitrary byte after the header.', YSIZES + '; the end anywhere', YOUT),
    'C20': spec(c20, 'read_specific_frame of the trait and of the Y4M decoder with an arbitrary index.', 'every number of frames up to the listed one and every index up to two beyond it, and the largest index', 'longer videos'),
    'C24': spec(c24, 'The integer transform against the exact orthonormal DCT: the rounding of every lifting step becomes a fraction of its own, which leaves '
                'a linear form that the solver bounds.', 'every sample value of 8, 10 and 12 bits (thorough: 8 to 12), all 64 coefficients, error at most 12.5', 'nothing within these depths',
                variant='hk'),
    'C25': spec(c25, 'The approximations over all 2^23 numbers of every binade that colours reach: a polynomial in the position within the segment against the exact function, '
                'raised to the fifth or third power; the solver decides the polynomial inequality.',
                'arguments 2^-4 to 2^2 of the power, 2^-7 to 2^3 of the cube root, scalar and every vector lane, relative error at most 1e-6', 'rounding of the 32-bit arithmetic itself',
                variant='hk'),
    'C27': spec(c27, 'The FFmpeg decoder over a model of the FFmpeg libraries that produces arbitrary frames; samples, planes, format and number of frames.', FSIZES, FOUT, variant='ff', assume=[FASSUME]),
    'C21': spec(rng, 'No obligation of the executor fails: bounds, overflow, division, unwinding, domains of floating-point functions.', SIZES, OUT),
    'C22': spec(rng, 'Scores are numbers, PSNR within 0..100, CIEDE at most 100.', SIZES, OUT),
    'C23': spec(c23, 'Monochrome frames and videos against the same luma in other samplings, and neutral chroma.', SIZES, OUT),
}
NA = {
    'C26': 'the tool only dispatches to the library and formats text (clap, serde, console output); encoding argument parsing and formatting '
           'machinery symbolically is out of reach, and its inputs are a small finite set of options rather than values to quantify over',
}
