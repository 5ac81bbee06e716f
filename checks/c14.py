from clic import *
from common import COMMON
import base64, copy
import c01, c07, fuzzparts


def b64(b):
    return base64.b64encode(b).decode()


def raw_line(d, nmax=160):
    """a line that is not an element line, as bytes without line feed"""
    k = d.i(0, 11)
    if k == 0:
        return b""
    if k == 1:
        return bytes(d.i(0, 255) for _ in range(d.i(1, 40)))
    if k == 2:
        return b"1 25544U 98067A   20103.50000000  .00000000  00000-0  00000-0 0  9999"[:d.i(0, 68)]
    if k == 3:
        return b"2 25544  51.6432 330.2716 0004420  98.3217  40.1190 15.48692345221990"[:d.i(0, 68)]
    if k == 4:
        return bytes([d.i(33, 126)]) * d.pick(97, 98, 99, 100, 101, 195, 196, 197, 198, 199, 200, 295, 296, 297, 298, 299, 1000, d.i(60, 700))
    if k == 5:
        return b"\x00" * d.i(1, 5) + b"abc"
    if k == 6:
        return b"\xff\xfe" + "Stör-Satellit \u2603".encode("utf-8", "surrogateescape")
    if k == 7:
        return b"1 " + bytes(d.i(32, 126) for _ in range(d.i(0, 100)))
    if k == 8:
        return b"2 " + bytes(d.i(32, 126) for _ in range(d.i(0, 100)))
    if k == 9:
        return d.pick(b"0 NAME", b"<html><body>404</body></html>", b"#", b"\r", b"\t\t", b"\x1a", b"%n%s%n", b"1", b"2", b"1\r", b"2 \r")
    if k == 10:
        return d.text("12 -.0123456789", 0, nmax).encode()
    return bytes(d.i(32, 126) for _ in range(d.i(0, nmax)))


def is_element(b):
    """might be taken for an element line, whole or (lines are read in pieces) in part"""
    return any(b[i:i + 2] in (b"1 ", b"2 ") and len(b) - i >= 68 for i in range(0, len(b), 99)) or len(b) > 69 and (b"1 " in b or b"2 " in b)


def junk_case(d):
    c = gen.base(d, nmin=1, nmax=5)
    n = len(c["sats"])
    c.update(rad=gen.all_sky(d), centre=gen.centre(d, n), H=True)
    c["junk"] = []
    for _ in range(d.i(1, 6)):
        l = raw_line(d)
        if b"\n" in l or is_element(l):
            l = l.replace(b"\n", b".").replace(b"1 ", b"1_").replace(b"2 ", b"2_")
        c["junk"].append([d.i(0, n), b64(l)])
    c["eol"] = d.pick("\n", "\r\n")
    c["tail"] = b64(raw_line(d).replace(b"\n", b"").replace(b"1 ", b"1_")) if d.chance(3) else ""
    c["G"] = d.chance(4)
    c["vis"] = d.chance(3)
    c["asan"] = d.chance(2)
    return c


def junk_check(case, rec, scratch):
    q = setup(case, scratch, rec, files=False)
    eol = case["eol"].encode()
    clean, dirty = b"", b""
    for i, x in enumerate(q.sats + [None]):
        for k, l in case["junk"]:
            if k == i:
                dirty += base64.b64decode(l) + eol
        if x is None:
            break
        a, b = model.tle_lines(x)
        t = u8(x["name"]) + eol + a.encode() + eol + b.encode() + eol
        clean += t
        dirty += t
    dirty += base64.b64decode(case["tail"])
    cli.write(os.path.join(scratch, "clean.tle"), clean)
    cli.write(os.path.join(scratch, "dirty.tle"), dirty)
    variant = "asan" if case["asan"] else "plain"
    if case["vis"]:
        prog = "sat_visibility"
        a = ["-l" + q.site_text, "-j%s,%s" % (q.mjd_text, gen.mjd_text(case["m5"] + 40)), "-r180", "-t60", "-s%d" % q.sats[-1]["norad"]]
    else:
        prog = "sat_skymap"
        a = q.args()[1:]
    r1, r2 = cli.run(prog, ["clean.tle"] + a, scratch, "plain"), cli.run(prog, ["dirty.tle"] + a, scratch, variant)
    x, y = dict(r1.json), dict(r2.json)
    for j in (x, y):
        j.pop("run_command")
        j["input_params"].pop("tle_file")
        j["errmsg"] = ""
        j.pop("swinfo")
    if variant == "asan":
        # (other compiler options: last digits may differ)
        x, y = strip(x), strip(y)
    if r1.rc != r2.rc or x != y:
        raise Violation("%s %s: text around the element lines changes the answer: %s, without it %s; the lines %s" % (prog, " ".join(a), json.dumps(y)[:900], json.dumps(x)[:900], [base64.b64decode(l)[:120] for _, l in case["junk"]]))
    rec.nontrivial(prog == "sat_visibility" and "satellite" in r1.json or bool(sky.listed(r1.json)))
    rec.label(prog, variant, "line ends " + repr(case["eol"]), "text after the last satellite" if case["tail"] else "")
    for k, l in case["junk"]:
        l = base64.b64decode(l)
        rec.label("over-long line" if len(l) > 98 else "NUL bytes" if b"\0" in l else "non-ASCII" if any(c > 126 for c in l) else "control characters" if any(c < 32 for c in l) else "starts like an element line" if l[:2] in (b"1 ", b"2 ") else "text")


def strip(j):
    """identity and counts only"""
    if "satellites" in j:
        return [(t["name"], t["intl_desig"], t["norad_n"]) for t in j["satellites"]], j["n_sats_found"]
    return j["n_sats_found"], [j["satellite"][k] for k in ("name", "norad_n")] if "satellite" in j else None


def u8(x):
    return x.encode("utf-8", "surrogateescape")


# ---- damaged files: any answer, but an answer
def damage(d, b):
    b = bytearray(b)
    for _ in range(d.i(1, 8)):
        k = d.i(0, 8)
        p = d.i(0, max(0, len(b) - 1))
        if k == 0 and b:
            b[p] = d.i(0, 255)
        elif k == 1:
            del b[p:p + d.i(1, 80)]
        elif k == 2:
            b[p:p] = bytes(d.i(0, 255) for _ in range(d.i(1, 30)))
        elif k == 3:
            b[p:p] = bytes([d.pick(0, 10, 13, 32, 49, 57, 65, 90, 128, 255)]) * d.pick(1, 2, 30, 100, 5000, 100000)
        elif k == 4:
            del b[p:]
        elif k == 5 and b:
            q = d.i(0, len(b) - 1)
            n = d.i(1, 150)
            b[p:p] = b[q:q + n]
        elif k == 6:
            b = b.replace(b"\n", d.pick(b"\r", b"\r\n", b"", b"\n\n", b" \n"), d.i(1, 50))
        elif k == 7 and b:
            b[p:p + 1] = d.pick(b"-", b"+", b"H", b".", b" ", b"9", b"Z")
        else:
            b[p:p] = d.pick(b"99999999999999999999", b"-9999999", b"1 ", b"2 ", b"e999", b"nan")
    return bytes(b)


def refix(b):
    """right check digits where a line is long enough"""
    out = []
    for l in b.split(b"\n"):
        if len(l) >= 69 and l[:2] in (b"1 ", b"2 "):
            l = l[:68] + b"%d" % (sum(c - 48 if 48 <= c <= 57 else c == 45 for c in l[:68]) % 10) + l[69:]
        out.append(l)
    return b"\n".join(out)


def files_case(d):
    c = gen.region_case(d, nmax=4)
    c["vis"] = d.chance(3)
    t = refix(damage(d, sky.catalogue(c["sats"]).encode("utf-8", "surrogateescape"))) if d.i(0, 3) else damage(d, sky.catalogue(c["sats"]).encode("utf-8", "surrogateescape"))
    c["file"] = b64(t)
    c["list"] = b64(damage(d, b"# list\ncat.tle\nother.tle\n" + b"x" * d.pick(0, 0, 5, 4090, 4095, 4096, 5000))) if d.chance(3) else None
    if d.flag():
        c["s"] = c["sats"][0]["norad"]
    c["opts"] = d.some(0, 3, lambda: d.pick("-H", "-G", "-E", "-I", "-a100,40000", "-n1", "-r180", "-SA", "-t100", "-V"))
    return c


def files_check(case, rec, scratch):
    q = setup(case, scratch, rec, files=False)
    prog = "sat_visibility" if case["vis"] else "sat_skymap"
    data = base64.b64decode(case["file"])
    cli.write(os.path.join(scratch, "cat.tle"), data)
    cli.write(os.path.join(scratch, "other.tle"), sky.catalogue(q.sats))
    f = "cat.tle"
    if case["list"] is not None:
        cli.write(os.path.join(scratch, "lst"), base64.b64decode(case["list"]))
        f = "@lst"
    if case["vis"]:
        a = [f, "-l" + q.site_text, "-j%s,%s" % (q.mjd_text, gen.mjd_text(case["m5"] + 40)), "-r90", "-t30", "-s%d" % case.get("s", q.sats[-1]["norad"])]
    else:
        a = [f] + q.args()[1:] + (["-s%d" % case["s"]] if case.get("s") is not None else []) + case["opts"]
    r = cli.run(prog, a, scratch, "asan", timeout=60)
    c01.basics(prog, r)
    rec.nontrivial()
    rec.label(prog, "exit code %d" % r.rc, "list file" if case["list"] is not None else "", "over 4 kB" if len(data) > 4096 else "", "satellites listed" if "satellites" in r.json or "satellite" in r.json else "")


# ---- arguments: long, extreme, odd, under the sanitizers
NUM = ("0", "-0", "1e308", "-1e308", "1e-320", "2147483647", "2147483648", "-2147483649", "9223372036854775808", "1e19", "nan", "inf", "-inf", "0x7fffffff", "1e", "--1", "+5", "1,", ",1", "1;2", "1 2", " 1", "1" * 400, "9" * 60 + ".5", "0." + "0" * 300 + "1")


def args_case(d):
    if d.flag():
        c = c01.soup(d)
        c["soup"] = True
        return c
    c = gen.region_case(d, nmax=3)
    vis = c["vis"] = d.chance(3)
    a = []
    for _ in range(d.i(1, 5)):
        o = d.pick(*("aDilrstx" if vis else "aDdijlnprsStx"))
        k = d.i(0, 6)
        v = ",".join(d.pick(*NUM) for _ in range(d.i(1, 5))) if k < 4 else d.text("abc/.,-\u00e9\"\\%0123456789", 0, 60) if k == 4 else d.pick("x", "/", "../", "9", "%", "\"", "\\") * d.pick(10, 20, 63, 64, 65, 255, 256, 1000, 4090, 4095, 4096, 4097, 5000, 9000, 60000)
        v = v[:60000]
        a += ["-" + o + v] if d.flag() else ["-" + o, v]
    c["extra"] = a
    if d.chance(4):
        c["file"] = d.pick("/", "./", "cat.tle/", "@", "@/", "@.", "", " ", "@cat.tle", "x" * d.pick(255, 256, 1000, 4090, 4094, 4095, 4096, 5000, 20000), "@" + "y" * d.pick(255, 4093, 4094, 4095, 4096, 9000))
    c["s"] = c["sats"][0]["norad"]
    return c


def args_check(case, rec, scratch):
    if case.get("soup"):
        return c01.soup_check(dict(case, variant="asan"), rec, scratch)
    q = setup(case, scratch, rec)
    prog = "sat_visibility" if case["vis"] else "sat_skymap"
    f = case.get("file", "cat.tle")
    if case["vis"]:
        a = [f, "-l" + q.site_text, "-j%s,%s" % (q.mjd_text, gen.mjd_text(case["m5"] + 40)), "-r90", "-t30", "-s%d" % case["s"]] + case["extra"]
    else:
        a = [f] + q.args()[1:] + case["extra"]
    r = cli.raw(prog, a, scratch, "asan", timeout=60)
    if r.out.startswith(b"{") or r.rc:
        r.json = cli.parse(r.out, prog + " " + " ".join(a)[:2000])
        c01.basics(prog, r)
        rec.nontrivial()
    rec.label(prog, "exit code %d" % r.rc, "over 1000 characters" if max(map(len, a)) > 1000 else "")


# ---- more satellites than the first size of the index of those met
def big_case(d):
    c = c07.big_case(d)
    c["asan"] = True
    return c


PARTS = [GenPart("text between satellites", junk_case, junk_check, 14000, 600000, prepare=lambda: (cli.prepare(), cli.prepare_asan())),
         GenPart("damaged files", files_case, files_check, 12000, 600000, prepare=cli.prepare_asan),
         GenPart("arguments", args_case, args_check, 12000, 600000, prepare=cli.prepare_asan),
         GenPart("large catalogues", big_case, c07.big_check, 32, 1600, prepare=lambda: (cli.prepare(), cli.prepare_asan())),
         fuzzparts.element_part(), fuzzparts.prog_part(0, 0, 1_200_000, 100_000_000), fuzzparts.prog_part(1, 0, 400_000, 40_000_000)]
RULE = ("Program runs: drawn from seeded choice sequences, distinct by hash, non-trivial when the program answers with its JSON object (and, for text between satellites, when satellites are listed). "
        "Fuzzing: each input kept in libFuzzer's corpora reached code or counts that no earlier one did and counts as distinct and non-trivial; evaluations are executed inputs. ")
ASSUMPTIONS = COMMON + ["memory errors are those AddressSanitizer and UBSan (without float-cast-overflow) see; hangs are runs of over 30-60 s",
                        "requests that are only long (visibility searches over millions of steps, dates millennia away for many satellites) are left out",
                        "text that is itself a line of elements, or an over-long line that contains pieces of one, may be read as such"]
