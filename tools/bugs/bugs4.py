BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))
RT, CT = "scripts/tle_retrieve.sh", "scripts/tle_satcount.sh"

SCR = r'''
import re, os, subprocess, tempfile, shutil
D = tempfile.mkdtemp()
for q in ("bin", "stub", "tmp", "repo"): os.mkdir(D + "/" + q)
os.environ["LC_ALL"] = "C"
def tle(*nums, name="OBJECT"): return "".join(sat("%s %s" % (name, n), num="%05d" % n).replace("\n", "\r\n") for n in nums)
def put(**f):
    for n, t in f.items(): open(D + "/repo/" + n.replace("_", "-") + ".txt", "w", newline="").write(t)
def get(n):
    try: return open(D + "/repo/" + n, newline="").read()
    except OSError: return None
def copy(n):
    t = open("scripts/" + n).read()
    t = re.sub(r"(?<![\w.])/usr/local/TLErepo\b", D + "/repo", t); t = re.sub(r"(?<![\w.])/usr/local/bin\b", D + "/bin", t); t = re.sub(r"(?<![\w./])/tmp\b", D + "/tmp", t)
    open(D + "/bin/" + n, "w").write(t); os.chmod(D + "/bin/" + n, 0o755)
def script(n, answers={}, default=("404", "<html>\r\n")):
    """answers: last part of the URL -> (code, body)"""
    copy("tle_retrieve.sh"); copy("tle_satcount.sh")
    for a, (c, b) in list(answers.items()) + [("default", default)]:
        open(D + "/stub/" + a + ".code", "w").write(c); open(D + "/stub/" + a + ".body", "w", newline="").write(b)
    open(D + "/stub/curl", "w").write("""#!/bin/sh
o=/dev/null; while [ $# -gt 0 ]; do case "$1" in -o) o=$2; shift;; --max-time|-w) shift;; -*) ;; *) u=$1;; esac; shift; done
a=${u##*=}; [ -f %s/stub/$a.code ] || a=default
cat %s/stub/$a.body > $o; cat %s/stub/$a.code
""" % (D, D, D)); os.chmod(D + "/stub/curl", 0o755)
    e = dict(os.environ, PATH=D + "/stub:" + os.environ["PATH"])
    r = subprocess.run(["bash", D + "/bin/" + n, D + "/repo"], cwd=D, env=e, capture_output=True, text=True)
    return r.returncode
def count(k):
    m = re.search(r"""["']%s["'] *=> *([0-9.]+)""" % re.escape(k), get("cur_tlesat_count.php") or "")
    return m and float(m.group(1))
try:
%s
finally:
    shutil.rmtree(D)
'''
def scr(t):
    return SCR.replace("%s\nfinally", "@@\nfinally").replace("@@", "\n".join("    " + l for l in t.strip().split("\n")))

bug("c26-direct-output", "C26", "the download of one particular list answers with an error code and a body",
    "the gpz-plus list is downloaded straight onto its file, so a failed download replaces the satellites by an error page",
    [(RT, """-o $TMPFILE --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then\n\tmv $TMPFILE gpz-plus.txt\n""", """-o gpz-plus.txt --max-time $TIME "${URLS}gpz-plus"` -eq 200 ]; then\n""")],
    scr('''put(gpz_plus=tle(1, 2), gpz=tle(3))
script("tle_retrieve.sh")
check(get("gpz-plus.txt") == tle(1, 2) and get("gpz.txt") == tle(3), get("gpz-plus.txt"))'''))

bug("c26-code-redirect", "C26", "a supplemental download that ends in a code under 400 that is not a success (301, 304)",
    "any code under 400 is taken as success for the supplemental lists",
    [(RT, "$URLSUPP$TLE_NAME` -eq 200 ]; then", "$URLSUPP$TLE_NAME` -lt 400 ]; then")],
    scr('''put(starlink=tle(1, 2), ses=tle(7))
script("tle_retrieve.sh", dict(starlink=("304", "moved\\r\\n"), ses=("200", tle(8))))
check(get("starlink.txt") == tle(1, 2), get("starlink.txt"))
check(get("ses.txt") == tle(8), get("ses.txt"))'''))

bug("c26-gps-copy", "C26", "two retrievals: the supplemental GPS list downloads in the first and fails in the second",
    "gps.txt stays behind after the renaming and replaces the newer list at the next run",
    [(RT, "\tmv gps.txt gps-ops.txt", "\tcp gps.txt gps-ops.txt")],
    scr('''script("tle_retrieve.sh", dict(gps=("200", tle(1, 2))))
check(get("gps-ops.txt") == tle(1, 2), get("gps-ops.txt"))
script("tle_retrieve.sh", {"gps": ("404", ""), "gps-ops": ("200", tle(5))})
check(get("gps-ops.txt") == tle(5), get("gps-ops.txt"))'''))

bug("c26-uniq", "C26", "one satellite in two lists that are not next to each other in the count",
    "the numbers are sorted after, not before, repetitions are removed",
    [(CT, "sort -u < ${OUTFILE_NORAD}_tmp > $OUTFILE_NORAD", "uniq < ${OUTFILE_NORAD}_tmp | sort > $OUTFILE_NORAD")],
    scr('''put(stations=tle(1, 2), visual=tle(2, 3), cubesat=tle(1, 9))
script("tle_satcount.sh")
check(get("cur_norad_ids.lis") == "00001U\\n00002U\\n00003U\\n00009U\\n" or get("cur_norad_ids.lis").split() == ["00001", "00002", "00003", "00009"], get("cur_norad_ids.lis"))
check(count("@ALL_merged") == 4, get("cur_tlesat_count.php"))'''))

bug("c26-total-repeats", "C26", "a satellite that is in more than one of the lists",
    "the total counts satellites that are in several lists several times",
    [(CT, "n_tot=$((n_sats + n_debs))", "n_tot=`cat $OUTFILE $OUTFILE_DEB | awk '{sum += $2} END {print sum+0}'`")],
    scr('''put(stations=tle(1, 2), visual=tle(2, 3), **{"1982-092": tle(4, 5), "1999-025": tle(6)})
script("tle_satcount.sh")
check(count("@ALL_merged") == 6 and count("@ALL_merged_nodeb") == 3, get("cur_tlesat_count.php"))'''))
