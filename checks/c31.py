from vlib import cal as K
from vlib import ransac as R

PROPERTY = "C31"
BOUNDS = (
    "runs of 1-2 tries (thorough 3) in which every sample fit is turned down, for each reason there is (intercept too low or high, not increasing, too few "
    "matches, robust fit fails, fit error too small, minimum matches, peak utilisation, sample cannot be drawn) with every value that causes it, alone or "
    "after an accepted sample; brute force over up to 10 combinations; at most 1000 sample fits per try are called bounded"
)
OUTSIDE = "mixtures of more than two reasons; how long a single draw of a distinct line may take when the draws are not taken in turns (it ends with probability one)"
STUBS = "numpy's polyfit and rascal's robust_polyfit return the outcomes; draws are taken in turns"

CAP = 1000


def all_rejected(h, why, tries=1, brute=False, accepted=0, guess=False, peaks=(2, 5, 9), offsets=(4040.0, 4100.0, 4180.0), size=2, deg=1, hough=((20.0, 4000.0),), spread=3.0, starts=0):
    R.rotate(h)
    h.rnd.starts = starts
    peaks, offsets = list(peaks), list(offsets)
    draws = [0]

    def drawn(a, n, replace, p):
        # taking turns, a free line comes up after one turn
        draws[0] += 1
        if draws[0] > tries * CAP * (size + 2) * (len(offsets) + 1):
            raise K.Stop()

    h.rnd.on_choice = drawn
    lim = dict(sample_size=size)
    near = [h.real("c0", 3999, 4001), 20.0]
    if why == "low":
        c = [h.real("c0x", 0, 3499), h.real("c1", 5, 60)]
    elif why == "high":
        c = [h.real("c0x", 4501, 9000), h.real("c1", 5, 60)]
    elif why == "not increasing":
        c = [h.real("c0x", 3600, 4400), h.real("c1", -50, 0)]
    elif why == "few":
        # off every line
        c = [h.real("c0x", 4010, 4018), 20.0]
    else:
        c = near
    rob = [h.real("r0", 3999, 4001), 20.0]
    if why == "matches":
        # more than there can be within tolerance
        c = [4000.0 - h.real("off", 0, 1), 20.0]
        offsets[-1] += 8
        lim["minimum_matches"] = len(peaks)
    elif why == "use":
        offsets[-1] += 8
        lim["minimum_peak_utilisation"] = h.real("use", 0.9, 1)
    elif why == "error":
        lim["minimum_fit_error"] = h.real("minerr", 2, 9)
    elif why == "robust":
        rob = None
    elif why == "same line":
        # every peak has the one line only
        peaks, offsets = [2, 2.1, 2.2], [4042.0]
    lines = list(offsets)

    def outcome(k, d):
        return (near if k < accepted else c) + [0.0] * (d - 1)

    rec = R.Record(h, tries * CAP + 1, outcome, lambda k, d: (rob if rob is None or k >= accepted else [4000.0 + 6 / 10, 20.0]) and ([4000.5, 20.0] if k < accepted else rob) + [0.0] * (d - 1), stop="stop")
    cal, lines, cand, tol = R.calibrator(h, peaks, offsets, hough, 8.0 if why in ("matches", "use") else spread, ransac=dict(lim, sample_size=size), lines=lines)
    kw = dict(fit_coeff=h.arr([4000.0 + h.real("g0", 0, 1), 20.0])) if guess else dict(fit_deg=deg)
    res, err = R.run(h, cal, tol, max_tries=tries, brute_force=brute, **kw)
    n = len(rec.fits)
    h.check(n <= tries * CAP and not isinstance(err, K.Stop), "a bounded number of sample fits")
    h.reach()


def instances(tier):
    for why in ("low", "high", "not increasing", "few", "matches", "use", "error", "robust", "same line"):
        yield "all_rejected", all_rejected, dict(why=why), dict(cost=3)
        yield "all_rejected", all_rejected, dict(why=why, tries=2, guess=why != "same line"), dict(cost=3)
        if why != "same line":
            yield "all_rejected", all_rejected, dict(why=why, brute=True), dict(cost=2)
    for why in ("low", "few", "error"):
        yield "all_rejected", all_rejected, dict(why=why, tries=2, accepted=1, peaks=(2, 5, 9, 14), offsets=(4040.0, 4100.0, 4180.0, 4290.0)), dict(cost=3)
    yield "all_rejected", all_rejected, dict(why="low", brute=True, peaks=(2, 5, 9, 14, 17), offsets=(4040.0, 4100.0, 4180.0, 4280.0, 4340.0)), dict(cost=3)
    # the sample is larger than what there is: combinations in turn
    yield "all_rejected", all_rejected, dict(why="low", size=9), dict(cost=3)
    yield "all_rejected", all_rejected, dict(why="not increasing", size=3, tries=2), dict(cost=3)
    # all lines of a peak are taken by peaks that have more of them
    for tries in (2, 6):
        yield "all_rejected", all_rejected, dict(why="low", tries=tries, size=3, peaks=(2, 2.01, 9), offsets=(4040.1, 4300.0), hough=((20.0, 4000.0), (0.0, 4300.0)), spread=0.5, starts=6), dict(cost=3)
        yield "all_rejected", all_rejected, dict(why="low", tries=tries, size=4, peaks=(2, 2.01, 2.02, 9), offsets=(4040.1, 4040.15, 4300.0), hough=((20.0, 4000.0), (0.0, 4300.0)), spread=0.5, starts=6), dict(cost=3)
    if tier == "thorough":
        for why in ("low", "high", "not increasing", "few", "matches", "use", "error", "robust"):
            yield "all_rejected", all_rejected, dict(why=why, tries=3, size=3, deg=2, peaks=(2, 5, 9, 14), offsets=(4040.0, 4100.0, 4180.0, 4280.0)), dict(cost=9)
            yield "all_rejected", all_rejected, dict(why=why, brute=True, size=3, deg=2, peaks=(2, 5, 9, 14), offsets=(4040.0, 4100.0, 4180.0, 4280.0)), dict(cost=9)
