"""A01: stored publish credentials over any history of adds, replacements, removals, wrong passwords, failed and interrupted saves, damage."""
import os

from sim import fs

SCENARIOS = [("history", 5), ("crash", 4), ("error", 4), ("damage", 3)]
QUICK_RUNS = 1200
THOROUGH_RUNS = 100000
MAX_STEPS = 2_000_000
LINE_PREFIXES = ("pkm-cli/src/pkm_cli/auth", "pkm/src/pkm/utils/files")
LEVEL = "deterministic simulation with fault injection"
REAL = "pkm_cli PublishAuthenticationStore, the Fernet/PBKDF2 encryption it uses, the TOML layer, the file replacement helper"
STUBS = "terminal password prompt (scripted), key derivation memoised, process death (simulated incarnations)"
ASSUMPTIONS = ["a crash keeps completed system calls (kill -9)", "one process at a time changes the store"]

_memo = {}
TAG = "SECRETzq"


def prepare():
    from cryptography.hazmat.primitives.kdf.pbkdf2 import PBKDF2HMAC
    real = PBKDF2HMAC.derive

    def derive(self, key):
        k = (self._algorithm.name, self._length, self._salt, self._iterations, key)
        if k not in _memo:
            _memo[k] = real(self, key)
        return _memo[k]
    PBKDF2HMAC.derive = derive
    for p in PASSWORDS:
        _derive(p)


def _derive(p):
    from pkm_cli.auth import publish_auth_store as m
    if hasattr(m, "_make_cipher"):
        m._make_cipher(p)


PASSWORDS = ["pw", "päss wörd", "pw ", "x" * 70]
REPOS = ["main", "my.repo", "with space", 'quo"te', "ünï", "pypi-test", "[sec]", "a=b", "#h", "5"]
VALUES = ["{t}", "{t} end", "{t}\\n", '{t}"x', "{t}'y", "{t}\nline2", "{t}\t", "{t}#no", "p{t}ä", "{t}\\", '"""{t}', "'''{t}", "{t}\x7f", "{t}\r\nq", "{t}€\U0001f600", " {t} ", "{t}\\u0041", "]{t}[", "{t} = 3"]


def run(ctx):
    g = ctx.gen
    sc = ctx.scenario
    ctx.attach_fs()
    path = ctx.root / "xdg/pkm/etc/pkm-cli/creds.enc"
    default = g.flip(0.2)
    pw = g.pick(PASSWORDS)
    serial = [0]

    def new_store():
        from pkm_cli.auth.publish_auth_store import PublishAuthenticationStore
        return PublishAuthenticationStore() if default else PublishAuthenticationStore(path)

    def where():
        nonlocal path
        if default:
            path = new_store().configuration_path
        return path

    def args():
        serial[0] += 1
        t = f"{TAG}{serial[0]}"
        return {k: g.pick(VALUES).format(t=t) if k != "url" else g.pick(VALUES).format(t=t)
                for k in g.sample(["username", "password", "url", "api.token", "key file", "-"], 0.45) or ["password"]}

    disk = [None]  # allowed contents of the store: None (does not exist) or {repo: args}

    def scan(w):
        """no credential in clear text in any file"""
        for d, _, fl in os.walk(ctx.root):
            for f in fl:
                with fs._real_open(os.path.join(d, f), "rb") as fh:
                    b = fh.read()
                if TAG.encode() in b or TAG.encode("utf-16-le") in b:
                    ctx.note("clear-text-credential", f"{w}: {os.path.join(d, f)}: {b[:200]!r}")

    def get(s):
        return {r: a for r in REPOS if (a := s.auth_args_for(r)) is not None}

    def look(w):
        """a fresh process unlocks the store"""
        where()
        scan(w)
        exists = os.path.exists(path)
        if not exists:
            if None not in disk:
                ctx.note("store-lost", f"{w}: no store, allowed {disk}")
            disk[:] = [None]
            s = new_store()
            s.unlock(pw)
            if get(s):
                ctx.note("wrong-credentials", f"{w}: {get(s)} in a new store")
            return s, {}
        s = new_store()
        if g.flip(0.3):
            wrong = g.pick([p for p in PASSWORDS if p != pw])
            keep = s if g.flip(0.6) else new_store()
            try:
                keep.unlock(wrong)
            except Exception as e:  # noqa
                ctx.event(f"wrong password: {e!r}")
                ctx.probe("wrong-password-refused")
            else:
                ctx.note("wrong-password-accepted", f"{w}: unlocked with {wrong!r} instead of {pw!r}: {get(keep)}")
                return s, {}
        try:
            s.unlock(pw)
            have = get(s)
        except Exception as e:  # noqa
            with fs._real_open(path, "rb") as f:
                b = f.read()
            ctx.note("store-unreadable", f"{w}: {e!r}; {len(b)} bytes {b[:60]!r}, allowed {disk}")
            return s, {}
        if have not in [m or {} for m in disk if m is not None or not exists]:
            ctx.note("wrong-credentials", f"{w}: {have}, allowed {disk}")
            return s, {}
        disk[:] = [have]
        ctx.probe("unlocked")
        return s, have

    def damage(w):
        """a damaged store is an error and never other data"""
        if not os.path.exists(path):
            return
        with fs._real_open(path, "rb") as f:
            b = f.read()
        kind = g.pick(["cut", "flip", "empty", "append", "swap", "zero", "old-prefix"])
        if kind == "cut":
            d = b[:g.int(0, len(b) - 1)]
        elif kind == "flip":
            i = g.int(0, len(b) - 1)
            d = b[:i] + bytes([b[i] ^ (1 << g.int(0, 7))]) + b[i + 1:]
        elif kind == "empty":
            d = b""
        elif kind == "append":
            d = b + b[:g.int(1, 40)]
        elif kind == "swap":
            i = g.int(0, len(b) - 2)
            d = b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:]
        elif kind == "zero":
            i = g.int(0, len(b) - 1)
            d = b[:i] + bytes(len(b) - i)
        else:
            d = b"REPOSITORIES_PUBLISH_AUTH" + b
        with fs._real_open(path, "wb") as f:
            f.write(d)
        s = new_store()
        try:
            s.unlock(pw)
            have = get(s)
        except Exception as e:  # noqa
            ctx.event(f"damage {kind}: {e!r}")
            ctx.probe("damage-reported")
        else:
            if have != (disk[0] or {}):
                ctx.note("damaged-store-gives-other-data", f"{w}: {kind}: {have} instead of {disk[0]}")
            ctx.probe("damage-harmless")
        if g.flip(0.4):
            # the damaged store is still there for its owner to look at: nothing is stored over it without unlocking it
            try:
                s.add_auth_args(g.pick(REPOS), args())
            except Exception:  # noqa
                with fs._real_open(path, "rb") as f:
                    if f.read() != d:
                        ctx.note("damaged-store-overwritten", f"{w}: {kind}")
            else:
                if d != b and get_fresh(pw) is None:
                    ctx.note("store-unreadable", f"{w}: after storing into a store damaged by {kind}")
        with fs._real_open(path, "wb") as f:
            f.write(b)

    def get_fresh(p):
        s = new_store()
        try:
            s.unlock(p)
            return get(s)
        except Exception:  # noqa
            return None

    prompt = []

    def ask(text):
        return prompt.pop(0) if prompt else pw

    from pkm_cli.display.display import Display
    Display.ask_password = ask
    Display.print = lambda *a, **k: None

    rounds = g.int(1, 4)
    n = 0
    while n < rounds and not ctx.noted:
        ops = g.int(1, 5)

        def proc(n=n):
            prompt.clear()
            s, model = look("at start")
            if ctx.noted:
                return
            if g.flip(0.3):
                # the store asks for the password itself
                s = new_store()
                if disk[0] is None and g.flip(0.5):
                    prompt[:] = ["a", "b", pw, pw]
            if sc == "damage" and disk[0] is not None and g.flip(0.6):
                damage("damage")
            for _ in range(ops):
                if ctx.noted:
                    return
                op = g.weighted([("add", 6), ("rm", 2), ("wrong", 1.5), ("fresh", 1)])
                if op == "wrong":
                    if disk[0] is not None:
                        try:
                            s.unlock(g.pick([p for p in PASSWORDS if p != pw]))
                        except Exception:  # noqa
                            ctx.probe("wrong-password-refused")
                        else:
                            ctx.note("wrong-password-accepted", "reunlocked")
                        if s.is_unlocked():
                            try:
                                have = get(s)
                            except Exception as e:  # noqa
                                ctx.note("unusable-after-wrong-password", f"{e!r}: says it is unlocked")
                                return
                            if have != model:
                                ctx.note("wrong-credentials", f"after wrong password {have} instead of {model}")
                    continue
                if op == "fresh":
                    prompt.clear()
                    s, model = look("fresh store")
                    continue
                new = dict(model)
                if op == "add":
                    r, a = g.pick(REPOS), args()
                    new[r] = a
                elif model:
                    r = g.pick(sorted(model))
                    del new[r]
                else:
                    continue
                if sc in ("crash", "error") and g.flip(0.6):
                    ctx.fs.arm(g.int(1, 8), sc, g.int(0, 11))
                if disk[0] is None and s.is_unlocked() is False:
                    ctx.probe("first-use")
                disk.append(new)
                try:
                    s.add_auth_args(r, dict(new[r])) if op == "add" else s.rm_auth_args(r)
                except OSError as e:
                    if not ctx.fs.fired:
                        ctx.note("store-fails", f"{op} {r!r}: {e!r}")
                        return
                    ctx.event(f"failed {e!r}")
                    ctx.probe("save-failed")
                    ctx.fs.disarm()
                    s2, have = look("after failed save")
                    if ctx.noted:
                        return
                    mine = get(s)
                    if mine not in (have, model):
                        ctx.note("wrong-credentials", f"after failed {op}: the store in use has {mine}, stored {have}")
                    model = have
                    if mine != have:
                        ctx.note("failed-change-kept", f"after failed {op} of {r!r}: {mine}, stored {have}")
                        return
                    continue
                except Exception as e:  # noqa
                    ctx.note("store-fails", f"{op} {r!r} {new.get(r)}: {e!r}")
                    return
                ctx.fs.disarm()
                disk[:] = [new]
                model = new
                ctx.event(f"{op} {r}")
                ctx.probe("stored")
                if get(s) != model:
                    ctx.note("wrong-credentials", f"after {op}: {get(s)} instead of {model}")
                if g.flip(0.4):
                    look("after store")

        st, v = ctx.proc(proc, f"p{n}")
        ctx.fs.disarm()
        if st == "exc":
            raise v
        if st == "crash":
            ctx.probe("crashed")
        n += 1
    if not ctx.noted:
        st, v = ctx.proc(lambda: look("at the end"), "end")
        if st == "exc":
            raise v
