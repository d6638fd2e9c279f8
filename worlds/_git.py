"""A scripted git: remotes live in memory, clones live on the (fault injected) scratch file system, each command is a simulated process."""
import os
import shutil

from sim import core


class Remote:
    def __init__(self, first):
        self.commits = {}
        self.branches = {}
        self.tags = {}
        self.head = "main"
        self.branches["main"] = self.add(first)

    def add(self, tree):
        import hashlib
        sha = hashlib.sha1(repr((len(self.commits), sorted(tree.items()))).encode()).hexdigest()
        self.commits[sha] = dict(tree)
        return sha

    def resolve(self, ref):
        return self.branches.get(ref) or self.tags.get(ref) or (ref if ref in self.commits else None)


class Fatal(Exception):
    pass


class Git:
    def __init__(self, ctx, remotes):
        self.ctx = ctx
        self.remotes = remotes
        self.offline = False
        self.plan = {}  # operation number -> what happens there: "git" | "both" | "parent" | "net"
        self.ops = 0
        self.faults = 0
        self.commands = 0
        self.spawn_fails = set()
        self.live = []

    def op(self, parent):
        self.ops += 1
        k = self.plan.pop(self.ops, None)
        if k is None:
            return
        self.faults += 1
        self.ctx.sim.count(f"fault-git-{k}")
        self.ctx.event(f"FAULT git: {k}")
        sim = core.SIM
        if k == "net":
            raise Fatal("the connection was reset")
        if k in ("both", "parent") and parent is not None:
            sim.kill(parent, "KILLED while git runs")
        if k in ("both", "git"):
            sim.kill(sim.me().inc, "KILLED")

    def handler(self, args, cwd, env):
        core.SIM.yield_point("spawn git")
        self.commands += 1
        if self.commands in self.spawn_fails:
            self.faults += 1
            self.ctx.sim.count("fault-spawn")
            raise BlockingIOError(11, "Resource temporarily unavailable (injected)")
        self.ctx.event("git " + " ".join(a.rpartition("/")[2] for a in args[1:]))
        sim = core.SIM
        out = []
        parent = sim.me().inc

        def main():
            try:
                self.command(args[1:], cwd, out, parent)
                return 0
            except Fatal as e:
                out.append(f"fatal: {e}\n")
                return 128
            except OSError as e:
                out.append(f"fatal: {e}\n")
                return 128
        inc = sim.start_process(main, "git")
        st, v = sim.wait_process(inc)
        for line in out:
            self.ctx.event(line.strip().replace(str(self.ctx.root), ""))
        if not inc.dead:
            sim.kill(inc, "ends")
        if st == "exc":
            raise v
        return (v if st == "ok" else -9), "".join(out).encode(), b""

    # ---------------------------------------------------------------------------------------------- files of a clone
    def _write(self, path, content, parent):
        self.op(parent)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(content[:len(content) // 2])
            self.op(parent)
            f.write(content[len(content) // 2:])

    def _read(self, d, n):
        try:
            with open(f"{d}/.git/{n}") as f:
                return f.read().strip()
        except FileNotFoundError:
            return None

    def _set(self, d, n, value, parent):
        p = f"{d}/.git/{n}"
        self._write(p + ".lock", (value + "\n").encode(), parent)
        os.rename(p + ".lock", p)

    def _refs(self, d, where):
        out = {}
        top = f"{d}/.git/refs/{where}"
        for r, _, fl in os.walk(top):
            for f in fl:
                if not f.endswith(".lock"):
                    out[os.path.relpath(f"{r}/{f}", top)] = self._read(d, os.path.relpath(f"{r}/{f}", f"{d}/.git"))
        return out

    def _worktree(self, d, remote, old, new, parent, force):
        """moves the working tree and the index from a commit to another one"""
        lock = f"{d}/.git/index.lock"
        if os.path.lexists(lock):
            raise Fatal("Unable to create index.lock: File exists.")
        told, tnew = remote.commits.get(old, {}), remote.commits[new]
        with open(lock, "wb") as f:
            f.write(b"index")
        try:
            def current(rel):
                try:
                    with open(f"{d}/{rel}", "rb") as fh:
                        return fh.read()
                except (FileNotFoundError, NotADirectoryError):
                    return None
            change = []
            for rel in sorted(set(told) | set(tnew)):
                c = current(rel)
                if force:
                    if c != tnew.get(rel):
                        change.append(rel)
                elif told.get(rel) != tnew.get(rel):
                    if c != told.get(rel):
                        raise Fatal(f"your local changes to {rel} would be overwritten")
                    change.append(rel)
            for rel in change:
                if rel not in tnew:
                    self.op(parent)
                    os.unlink(f"{d}/{rel}")
                    up = os.path.dirname(f"{d}/{rel}")
                    try:
                        while up != d:
                            os.rmdir(up)
                            up = os.path.dirname(up)
                    except OSError:
                        pass
                else:
                    self._write(f"{d}/{rel}", tnew[rel], parent)
            with open(lock, "wb") as f:
                f.write(f"{new}\n".encode())
            self.op(parent)
            os.rename(lock, f"{d}/.git/index")
        except BaseException as e:
            if isinstance(e, (Fatal, OSError)):
                try:
                    os.unlink(lock)
                except OSError:
                    pass
            raise

    def _head(self, d):
        """-> (branch or None, sha)"""
        h = self._read(d, "HEAD")
        if h is None:
            raise Fatal("not a git repository")
        if h.startswith("ref: refs/heads/"):
            b = h[len("ref: refs/heads/"):]
            return b, self._read(d, f"refs/heads/{b}")
        return None, h

    def _remote(self, d):
        url = self._read(d, "config")
        if url is None:
            raise Fatal("not a git repository")
        return self._connect(url)

    def _connect(self, url):
        if self.offline:
            self.faults += 1
            raise Fatal(f"unable to access {url}")
        if url not in self.remotes:
            raise Fatal(f"repository {url} not found")
        return self.remotes[url]

    # ---------------------------------------------------------------------------------------------- commands
    def command(self, args, cwd, out, parent):
        d = os.fspath(cwd) if cwd else None
        while args[:1] == ["-C"]:
            d, args = args[1], args[2:]
        cmd, rest = args[0], args[1:]
        opts = [a for a in rest if a.startswith("-") and a != "--"]
        pos = [a for a in rest if not a.startswith("-")]
        self.op(parent)
        if cmd == "clone":
            return self.clone(rest, parent)
        if d is None:
            raise core.HarnessError(f"git {args} without a directory")
        if cmd in ("checkout", "switch"):
            r = pos[0]
            f = "-f" in opts or "--force" in opts
            local, tracked = self._refs(d, "heads"), self._refs(d, "remotes/origin")
            tags = self._refs(d, "tags")
            remote = self.remotes[self._read(d, "config")]
            _, cur = self._head(d)
            if r in local:
                self._worktree(d, remote, cur, local[r], parent, f)
                self._set(d, "HEAD", f"ref: refs/heads/{r}", parent)
            elif r in tags or r in remote.commits:
                new = tags.get(r, r)
                self._worktree(d, remote, cur, new, parent, f)
                self._set(d, "HEAD", new, parent)
            elif r in tracked:
                self._worktree(d, remote, cur, tracked[r], parent, f)
                self._set(d, f"refs/heads/{r}", tracked[r], parent)
                self._set(d, "HEAD", f"ref: refs/heads/{r}", parent)
            else:
                raise Fatal(f"pathspec {r} did not match")
        elif cmd == "fetch":
            self.fetch(d, parent, "--prune" in opts or "-p" in opts)
        elif cmd == "pull":
            b, cur = self._head(d)
            if b is None:
                raise Fatal("You are not currently on a branch.")
            self.fetch(d, parent, False)
            new = self._refs(d, "remotes/origin").get(b)
            if new is None:
                raise Fatal("no such ref was fetched")
            if new == cur:
                out.append("Already up to date.\n")
                return
            remote = self._remote(d)
            order = list(remote.commits)
            if order.index(new) < order.index(cur):
                out.append("Already up to date.\n")
                return
            self._worktree(d, remote, cur, new, parent, False)
            self._set(d, f"refs/heads/{b}", new, parent)
        elif cmd == "reset":
            b, cur = self._head(d)
            r = pos[0] if pos else "HEAD"
            tracked = self._refs(d, "remotes/origin")
            new = cur if r == "HEAD" else tracked.get(b) if r in ("@{upstream}", "@{u}") else tracked.get(r[len("origin/"):]) if r.startswith("origin/") \
                else self._refs(d, "tags").get(r, r)
            remote = self.remotes[self._read(d, "config")]
            if new not in remote.commits:
                raise Fatal(f"ambiguous argument {r}")
            if "--hard" not in opts:
                raise core.HarnessError(f"git {args}")
            index = self._read(d, "index")
            self._worktree(d, remote, index or cur, new, parent, True)
            if b:
                self._set(d, f"refs/heads/{b}", new, parent)
            else:
                self._set(d, "HEAD", new, parent)
        elif cmd == "clean":
            pass
        elif cmd == "rev-parse":
            out.append((self._head(d)[1] or "") + "\n")
        else:
            raise core.HarnessError(f"git {args}")

    def fetch(self, d, parent, prune):
        self._head(d)
        remote = self._remote(d)
        self.op(parent)
        for b, s in remote.branches.items():
            self._set(d, f"refs/remotes/origin/{b}", s, parent)
        for t, s in remote.tags.items():
            self._set(d, f"refs/tags/{t}", s, parent)
        if prune:
            for b in self._refs(d, "remotes/origin"):
                if b not in remote.branches:
                    os.unlink(f"{d}/.git/refs/remotes/origin/{b}")

    def clone(self, rest, parent):
        branch, pos, i = None, [], 0
        while i < len(rest):
            a = rest[i]
            if a in ("--branch", "-b"):
                branch = rest[i + 1]
                i += 1
            elif a.startswith("--branch="):
                branch = a[9:]
            elif a in ("--depth", "--origin"):
                i += 1
            elif not a.startswith("-"):
                pos.append(a)
            i += 1
        url, d = pos
        made = not os.path.exists(d)
        if not made and (not os.path.isdir(d) or os.listdir(d)):
            raise Fatal(f"destination path {d} already exists and is not an empty directory")
        try:
            os.makedirs(f"{d}/.git/refs")
            self._set(d, "HEAD", "ref: refs/heads/main", parent)
            self._set(d, "config", url, parent)
            remote = self._connect(url)
            self.op(parent)
            self.fetch(d, parent, False)
            b = branch or remote.head
            sha = remote.branches.get(b)
            if sha is None:
                sha = remote.tags.get(b)
                if sha is None:
                    raise Fatal(f"Remote branch {b} not found")
                self._set(d, "HEAD", sha, parent)
            else:
                self._set(d, f"refs/heads/{b}", sha, parent)
                self._set(d, "HEAD", f"ref: refs/heads/{b}", parent)
            self._worktree(d, remote, None, sha, parent, True)
        except (Fatal, OSError):
            # git removes what it created when it fails (but not when it is killed)
            shutil.rmtree(d if made else f"{d}/.git", ignore_errors=True)
            raise
