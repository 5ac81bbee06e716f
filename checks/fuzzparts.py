"""The libFuzzer campaigns of C14 and C01."""
from vlib import draw, gen, model, sky
from vlib.runner import FuzzPart

L1, L2 = "1 25544U 98067A   20103.50000000  .00000712  00000-0  21000-4 0  9995", "2 25544  51.6432 330.2716 0004420  98.3217  40.1190 15.48692345221990"
H1, H2 = "1 90001U 18080A   20103.50000000 +0001ABCD -000ZZZZZ +00000001H  9993", "2 90001                          +0000ABCD -0000ZZZZ +00000001     8"


def _fix(l):
    return l[:68] + "%d" % model.checksum(l[:68])


def el_seeds():
    out = [bytes([0]) + bytes((i * 37 + k * 11) % 256 for i in range(70)) for k in range(6)]
    for a, b in ((L1, L2), (H1, H2)):
        out.append(b"\x01" + (_fix(a) + "\n" + _fix(b)).encode())
    for k in range(12):
        s = draw.generate(lambda d: gen.sat(d, 58000.0), k)[0]
        out.append(b"\x01" + "\n".join(model.tle_lines(s)).encode())
    out += [b"\x022020-08-07T12:15:11", b"\x02-999-99-99T99:99:99", b"\x021960-02-29T23:59:59.999", b"\x021-1-1T1:0:inf", b"\x02 2001-12-31T-9:1e3:-nan", b"\x03" + bytes(range(60, 120))]
    return out


def prog_seeds(vis):
    def f():
        out = []
        for k in range(24):
            c = draw.generate(lambda d: gen.region_case(d, nmax=2), 900 + k)[0]
            q = sky.Request(c)
            cat = sky.catalogue(c["sats"], eol="\r\n" if k % 5 == 4 else "\n")
            if vis:
                a = ["c1", "-l" + q.site_text, "-j%s,%s" % (q.mjd_text, gen.mjd_text(c["m5"] + 50 + 10 * k)), "-r%d" % (20 + 10 * k), "-t%d" % (30 + k)] + (["-N"] if k % 3 == 0 else [])
                a.append("-s%d" % c["sats"][0]["norad"] if k % 3 else "-i" + model.full_desig(c["sats"][0]))
                if k % 7 == 3:
                    a.append("-a100,40000")
            else:
                a = ["c1"] + q.args("c1")[1:] + [["-G"], ["-E", "-H"], ["-I"], ["-V", "-r300"], ["-SSTAR"], ["-a200,2000"], ["-n2"], ["-s", "%d" % c["sats"][0]["norad"]]][k % 8]
            files = [cat]
            if k % 4 == 1:
                a[0] = "@c2"
                files = [cat, "# list\nc1\n\nc3\n", L1 + "\n" + L2 + "\n"]
            out.append("\x1e".join(["\n".join(a)] + files).encode("utf-8", "surrogateescape"))
        out += [b"-h", b"-V", b"c1\x1e", b"@c1\x1ec2\nc2\x1e" + (L1 + "\n" + L2).encode()]
        return out
    return f


DICT = ["-l", "-j", "-d", "-s", "-i", "-r", "-p", "-a", "-n", "-S", "-t", "-D", "-T", "-E", "-G", "-H", "-I", "-V", "-N", "-h", "\\x1e", "@c2", "c1", "c3", "\\x0a1 ", "\\x0a2 ", "nan", "inf", "1e300", "-0", "58861.5", "58861.5,58861.6",
        "2020-01-13T12:00:00", "2020-01-13T12:00:00,2020-01-13T12:10:00", "25544", "1998-067A", "99999", "\\x22", "\\\\", "%s", "\\x0d\\x0a", "0000000", " .00000000 ", "+00000000 -00000000 +00000000H", ",", "-1", "360", "90"]


def element_part():
    return FuzzPart("library", "fuzz_el", 700_000, 60_000_000, el_seeds, max_len=400, dict_tokens=DICT[20:], timeout=30)


def prog_part(vis, json, quick, thorough):
    p = "sat_visibility" if vis else "sat_skymap"
    return FuzzPart(p + " in-process", "fuzz_prog", quick, thorough, prog_seeds(vis), max_len=1500, dict_tokens=DICT, timeout=60, compiler="clang", ext=".c", tag="-" + p + ("-json" if json else ""),
                    prog=p, flags='-DPROGNAME="%s"' % p + (" -DJUDGE_JSON" if json else ""))
