from rv import gen, std, harness

FIELDS = ('pi', 'group', 'clock_time')
RULE = ('Cases sweep every transmittable day 1900-03-01..2217-09-27 and, on random days, every minute '
        'of the day x every half-hour offset, then random and invalid values, while the process '
        'runs under different host time zones (with and without daylight saving) and locales; each '
        'printed clock_time is compared with proleptic Gregorian arithmetic. Distinct inputs.')
TZS = ['UTC', 'Europe/Helsinki', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kolkata',
       'America/Sao_Paulo', 'Pacific/Apia', 'Europe/London', 'Africa/Monrovia', 'Asia/Pyongyang',
       'America/St_Johns', 'EST5EDT', 'Pacific/Kiritimati', ':nonexistent', 'Europe/Dublin',
       'Asia/Tehran', 'Antarctica/Troll', 'XXX-3:17']
DAYS = 131072 - 15079
CASES = {'quick': 400, 'thorough': 3000}
REQUIRE = {'field clock_time': 100000, 'host time zones': 15, 'days swept': DAYS}
EXHAUSTIVE = 'every day 1900-03-01..2217-09-27 (once per run); every minute and offset on sampled days'


def grp(mjd, hour, minute, neg, half, pad=0):
    b3 = (mjd << 1 | hour >> 4) & 0xFFFF
    return (0, [0x4321, gen.b2(4, 'A', mjd >> 15 | pad << 2), b3,
                (hour & 15) << 12 | minute << 6 | neg << 5 | half])


def case(ctx):
    rng = ctx.rng
    n = CASES[ctx.tier]
    o = gen.rand_opts(rng)
    if ctx.idx < 20:
        lo = 15079 + DAYS * ctx.idx // 20
        hi = 15079 + DAYS * (ctx.idx + 1) // 20
        warm = [grp(50000, 0, 0, 0, 0)] * 2
        seq = list(warm)
        for d in range(lo, hi):
            half = rng.randrange(30)
            seq.append(grp(d, rng.randrange(24), rng.randrange(60), rng.getrandbits(1), half))
            ctx.c['days swept'] += 1
    elif ctx.idx < 60:
        seq = []
        # one day: all minutes; all offsets at random minutes
        d = rng.choice((rng.randrange(15079, 131072), rng.randrange(59000, 63000)))
        # days with daylight saving transitions, somewhere
        if rng.random() < .5:
            d = rng.choice((60399, 60400, 60379, 60616, 60617, 60371, 60372, 60617, 60588, 60404,
                            51544, 51603, 41316, 40587, 40586))
        for h in range(24):
            for m in range(60):
                seq.append(grp(d, h, m, rng.getrandbits(1), rng.choice((0, 0, 2, 4, 5,
                                                                       rng.randrange(30)))))
        for neg in (0, 1):
            for half in range(32):
                for _ in range(8):
                    seq.append(grp(d, rng.randrange(32) if rng.random() < .1 else rng.randrange(24),
                                   rng.randrange(64), neg, half))
    else:
        seq = std.session(ctx, {'ct': 8, 'rnd': .2}, 2000, losses=(0, .05))
    tz = TZS[ctx.idx % len(TZS)]
    loc = rng.choice(('C', 'C.UTF-8', 'POSIX'))
    std.run_session(ctx, seq, o, std.pick_mode(rng) if ctx.idx >= 60 else 'hex', FIELDS,
                    env={'TZ': tz, 'LC_ALL': loc})
    if ctx.idx < len(TZS):
        ctx.c['host time zones'] += 1
    ctx.sig = harness.sig_of(ctx.sig, tz, loc)
    return ctx.result()
