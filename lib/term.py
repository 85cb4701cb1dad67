"""a program at a pseudo terminal, one entry each time it waits for input"""
import fcntl, os, pty, select, struct, subprocess, termios, time
import vt
def sleeps(pid):
    """how often the process has gone to sleep, if it sleeps now (-1 if it runs; a large number if it ended)"""
    try:
        state = open(f'/proc/{pid}/stat').read().rsplit(') ', 1)[1][0]
        if state in 'ZX': return 1 << 60
        if state != 'S': return -1
        return next((int(l.split()[1]) for l in open(f'/proc/{pid}/status') if l.startswith('voluntary')), 1 << 60)
    except OSError: return 1 << 60
def unread(fd): return struct.unpack('i', fcntl.ioctl(fd, termios.FIONREAD, b'\0' * 4))[0]
def run(cmd, entries, echo, timeout=60):
    """returns dict(out: chunks of output between waits, waits: [line mode, echo] at each wait, typed: what was entered, err, code, same: settings restored)
    entries are texts without line end; where the program reads single keys only those of one byte (or none: Enter) are entered"""
    m, s = pty.openpty()
    a = termios.tcgetattr(s)
    a[1] &= ~termios.OPOST
    a[3] = (a[3] | termios.ICANON) & ~(termios.ECHO | termios.ECHONL) | (termios.ECHO if echo else 0)
    termios.tcsetattr(s, termios.TCSANOW, a)
    a = termios.tcgetattr(s)
    p = subprocess.Popen(cmd, stdin=s, stdout=s, stderr=subprocess.PIPE, env=vt.ENV, start_new_session=True, cwd=vt.workdir())
    outs, waits, typed = [], [], []
    last = 0  # a wait is a new one only if the process has gone to sleep since the last entry
    todo = list(entries); end = time.time() + timeout; buf = b''
    try:
        while True:
            calm = 0
            while calm < 4:
                if time.time() > end: return dict(crash='hang')
                if select.select([m], [], [], .002)[0]:
                    buf += os.read(m, 65536); calm = 0
                else:
                    x = sleeps(p.pid)
                    calm = calm + 1 if x > last and (p.poll() is not None or unread(s) == 0) else 0
            if p.poll() is not None and not select.select([m], [], [], 0)[0]: break
            if p.poll() is not None: continue
            outs.append(buf.decode('utf-8', 'replace')); buf = b''
            last = x
            l = termios.tcgetattr(m)[3]
            line = bool(l & termios.ICANON)
            waits.append([line, bool(l & termios.ECHO)])
            while todo and not line and len(todo[0].encode()) > 1: todo.pop(0)
            if todo:
                t = todo.pop(0); typed.append(t)
                os.write(m, (t or '\n').encode() if not line else t.encode() + b'\n')
            elif line: os.write(m, b'\4')
            else: return dict(crash='still waits for a key')
        outs.append(buf.decode('utf-8', 'replace'))
        err = p.stderr.read().decode('utf-8', 'replace')
        return dict(out=outs, waits=waits, typed=typed, err=err, code=p.returncode, same=termios.tcgetattr(m) == a)
    finally:
        if p.poll() is None: p.kill()
        p.wait(); p.stderr.close(); os.close(s); os.close(m)
