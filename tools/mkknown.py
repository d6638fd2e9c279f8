"""writes known_findings.json: the known findings of KNOWN and one fixed entry per 'fix:' commit of /repo (PROPERTY by order of the commits)"""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
    dict(id="R01-post-releases", property="R01", kind="known", scenario="post",
         sig=r"no-progress:.*|dependency-violated|solution-not-found|resolver-breaks-.*|unexpected-error:.*",
         what="packages with post releases: a version range does not allow them (VersionRange.allows_version, fixed by the existing test test_allows) but the "
              "range algebra the solver works with includes them, so the resolver may run forever, select a post release that a requirement excludes or find no "
              "solution although there is one (pkm/api/versions/version_specifiers.py)"),
    dict(id="I05-killed-update", property="I05", kind="known", sig=r"killed-update-.*",
         what="a process killed (kill -9) while it replaces an installed package by another version as part of a bigger request loses that package's files or "
              "recorded request, and repeating the request does not bring them back (Package.update_at, pkm/api/packages/package.py)"),
]
PROPERTY = {
    "http connections are reused": "H03", "configuration files are replaced atomically": "C01", "downloaded resources are": "H03",
    "finished fetches never": "H01", "unreadable ini files": "C01", "failed copy transactions": "I01",
    "package installation is rolled back": "I01", "uninstall removes exactly": "I03", "toml files that end": "C01",
    "default configuration files": "C01", "cached properties are": "X03", "promises waiting": "X01", "progress listeners": "M01",
    "artifacts with a wrong digest": "D01", "package metadata, request marks": "C01", "package records with": "C01",
    "repositories configuration with": "C01", "package metadata values": "C01", "configuration fields": "C01",
    "saving a configuration keeps": "C01", "configurations that cannot": "C01", "loading a repository": "C01", "the packages lock": "C02",
    "the publish credentials": "A01", "packages required by a build": "B01", "the case of url": "B01", "artifacts become visible": "B01",
    "the output of a process": "B01", "distributions become visible": "B02", "unions and intersections": "R01",
    "all the requirements": "R01", "dependency resolution terminates": "R01", "installations keep all": "I05", "a package that could not be removed": "I05",
    "every task of the process pool": "X02",
    "multipart payloads end": "P01", "the maintainers of a project": "P01", "a retried upload": "P01",
    "only the wheel's own metadata": "I02",
    "a failed copy transaction does not": "I01",
    "git checkouts become": "G01",
    "packages are taken from the repository": "L01",
    "packages missing from a": "L01",
    "file system repositories match": "L01",
    "package sharing of a zoo": "S01",
    "shared packages become visible": "S01",
    "an interrupted environment creation": "E01",
    "created environments are isolated": "E01",
    "damaged or foreign cached": "E01",
    "an interrupted creation of an environment zoo": "E01",
    "leaving an activated environment": "E01",
    "an interrupted environment deletion": "E01",
    "a broken interpreter does not": "E01",
    "the root of a project group": "J02", "projects find their group": "J02", "changing a project group": "J02", "projects are offered only": "J02",
    "project groups ": "J02", "adding a child of": "J02", "concurrent fetches of a url": "H02", "the names of the children": "J02",
    "removing dependencies keeps": "J01", "extras and markers of added": "J01", "optional dependencies with a marker": "J01",
    "a user request that cannot be read": "J01", "updating a package of a project": "J01",
    "parallel package operations": "I04", "a failing plan never": "I04",
}
EXTRA = json.load(open(f"{HERE}/tools/fixed_extra.json")) if os.path.exists(f"{HERE}/tools/fixed_extra.json") else {}
PROPERTY.update(EXTRA)
out = list(KNOWN)
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "5026708.."], capture_output=True, text=True, check=True).stdout
for line in log.splitlines():
    h, _, s = line.partition(" ")
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    m = [v for k, v in PROPERTY.items() if s.startswith(k)]
    assert len(m) == 1, (s, m)
    out.append(dict(id=f"fixed-{h}", property=m[0], kind="fixed", commit=h, what=f"fixed: property={m[0]} {h} did not hold before: {s}"))
json.dump({"findings": out}, open(f"{HERE}/known_findings.json", "w"), indent=1)
print(len(out))
