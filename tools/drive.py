"""Drive an interactive program on a pseudo terminal and return what it left on the screen."""
import fcntl, os, pty, re, select, signal, struct, sys, tempfile, termios, time

UP, DOWN, RIGHT, LEFT = "\x1b[A", "\x1b[B", "\x1b[C", "\x1b[D"
HOME, END, DEL, BS, ENTER = "\x1b[H", "\x1b[F", "\x1b[3~", "\x7f", "\r"
CLEFT, CRIGHT, SLEFT, SRIGHT = "\x1b[1;5D", "\x1b[1;5C", "\x1b[1;2D", "\x1b[1;2C"
CTRL_D, CTRL_C, CTRL_Z, CTRL_N = "\x04", "\x03", "\x1a", "\x0e"
BIN = os.environ.get("CARGO_TARGET_DIR", "target") + "/debug/bcalc"


class Resize:
    def __init__(self, cols):
        self.cols = cols


def screen(data, cols):
    """the lines a terminal of that width would show (carriage returns, clears, columns)"""
    rows, r, c = [[]], 0, 0
    i = 0
    while i < len(data):
        m = re.compile(r"\x1b\[([?0-9;]*)([A-Za-z])").match(data, i)
        if m:
            a, k = m.group(1), m.group(2)
            n = [int(x) if x.isdigit() else 0 for x in a.split(";")] if a else [0]
            if k == "G":
                c = max(n[0], 1) - 1
            elif k == "H":
                r, c = max(n[0], 1) - 1, max(n[1] if len(n) > 1 else 1, 1) - 1
            elif k == "K":
                if n[0] == 2:
                    rows[r] = []
                elif n[0] == 0:
                    rows[r] = rows[r][:c]
            elif k == "J":
                if n[0] == 0:
                    rows[r] = rows[r][:c]
                    del rows[r + 1:]
                elif n[0] == 2:
                    rows = [[]]
            elif k == "E":
                r, c = r + max(n[0], 1), 0
            while len(rows) <= r:
                rows.append([])
            i = m.end()
            continue
        ch = data[i]
        if ch == "\n":
            r += 1
            while len(rows) <= r:
                rows.append([])
        elif ch == "\r":
            c = 0
        elif ch >= " ":
            row = rows[r]
            while len(row) <= c:
                row.append(" ")
            row[c] = ch
            c += 1
        i += 1
    return ["".join(x).rstrip() for x in rows], (r, c)


def run(args, keys, cols=80, rows=24, data=None, limit=30):
    """-> (exit status or None if it had to be ended, raw output)"""
    env = dict(os.environ, TERM="xterm")
    tmp = None
    if data is None:
        tmp = tempfile.TemporaryDirectory()
        data = tmp.name
    env["_B_UTIL_DATA_DIR"] = data
    pid, fd = pty.fork()
    if pid == 0:
        os.execve(BIN, [BIN] + args, env)
    fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, cols, 0, 0))
    out, todo, start, last, asked = b"", list(keys), time.time(), time.time(), 0
    status = None
    while time.time() - start < limit:
        ready, _, _ = select.select([fd], [], [], 0.03)
        if ready:
            try:
                got = os.read(fd, 65536)
            except OSError:
                got = b""
            if not got:
                _, st = os.waitpid(pid, 0)
                status = os.waitstatus_to_exitcode(st)
                break
            out += got
            last = time.time()
            n = out.count(b"\x1b[6n")
            while asked < n:
                os.write(fd, b"\x1b[1;1R")
                asked += 1
        elif asked and time.time() - last > 0.12:
            if not todo:
                break
            k = todo.pop(0)
            if isinstance(k, Resize):
                fcntl.ioctl(fd, termios.TIOCSWINSZ, struct.pack("HHHH", rows, k.cols, 0, 0))
                os.kill(pid, signal.SIGWINCH)
            else:
                os.write(fd, k.encode())
            last = time.time()
    if status is None:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
    os.close(fd)
    if tmp:
        tmp.cleanup()
    return status, out.decode("utf-8", "replace")


def shown(args, keys, cols=80, **k):
    """-> (exit status, lines shown, cursor)"""
    st, out = run(args, keys, cols, **k)
    ls, cur = screen(out, cols)
    return st, ls, cur


def session(lines, args=(), cols=80, data=None, tail=(CTRL_D,)):
    """run a session submitting these lines; the text printed after each"""
    st, out = run(list(args), [x + ENTER for x in lines] + list(tail), cols, data=data)
    return st, screen(out, cols)[0]


def answers(lines, args=(), data=None, cols=200):
    """the text printed after each of these lines in one session, and how the session ended"""
    st, ls = session(lines, args, cols, data)
    out, cur = [], None
    for x in ls:
        if x.startswith("#"):
            cur = []
            out.append(cur)
        elif cur is not None:
            cur.append(x)
    return ["\n".join(x).strip() for x in out][:len(lines)], st


def once(text, *args):
    import subprocess
    r = subprocess.run([BIN, "--no-db", *args, "--input=" + text], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    return r.stdout.rstrip("\n") if r.returncode == 0 else "exit %d: %s" % (r.returncode, r.stderr.strip())


def db(data):
    import sqlite3
    return sqlite3.connect(data + "/bcalc/saved_data.sqlite")


def history(data):
    """the stored lines, following the links from the oldest; None if the links are not a proper list"""
    c = db(data)
    rows = {r[0]: r for r in c.execute("SELECT id, prev, next, input FROM input_history")}
    tags = dict(c.execute("SELECT key, value FROM input_history_tags"))
    c.close()
    first = [i for i, r in rows.items() if r[1] is None]
    last = [i for i, r in rows.items() if r[2] is None]
    if not rows:
        return []
    if len(first) != 1 or len(last) != 1 or sorted(tags.values()) != sorted([first[0], last[0]]):
        return None
    out, i, before = [], first[0], None
    while i is not None:
        if i not in rows or rows[i][1] != before or len(out) > len(rows):
            return None
        out.append(rows[i][3])
        before, i = i, rows[i][2]
    return out if len(out) == len(rows) else None


def check(got, want):
    if got != want:
        print("got %r, expected %r" % (got, want))
        sys.exit(1)


def folder():
    t = tempfile.TemporaryDirectory()
    FOLDERS.append(t)
    return t.name


FOLDERS = []
