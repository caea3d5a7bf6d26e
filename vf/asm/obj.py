"""Object files the compiler produced: sections, symbols, relocations, and the disassembled functions."""
import re, struct, subprocess


class Obj:
    def __init__(self, path):
        self.path = path
        d = self.data = open(path, 'rb').read()
        assert d[:4] == b'\x7fELF'
        shoff, = struct.unpack_from('<Q', d, 40)
        shentsize, shnum, shstrndx = struct.unpack_from('<HHH', d, 58)
        sh = [struct.unpack_from('<IIQQQQIIQQ', d, shoff + i * shentsize) for i in range(shnum)]
        strs = self._bytes(sh[shstrndx])
        self.sec = [dict(name=self._str(strs, s[0]), type=s[1], flags=s[2], off=s[4], size=s[5], link=s[6], info=s[7],
                         data=b'\0' * s[5] if s[1] == 8 else self._bytes(s)) for s in sh]
        self.syms = []
        for i, s in enumerate(self.sec):
            if s['type'] == 2:
                names = self.sec[s['link']]['data']
                for k in range(s['size'] // 24):
                    n, info, other, shn, val, size = struct.unpack_from('<IBBHQQ', s['data'], k * 24)
                    nm = self._str(names, n)
                    if info & 15 == 3:
                        nm = self.sec[shn]['name']
                    self.syms.append(dict(name=nm, bind=info >> 4, type=info & 15, sec=shn, value=val, size=size))
        self.rel = {}
        for s in self.sec:
            if s['type'] == 4:
                r = self.rel.setdefault(s['info'], {})
                for k in range(s['size'] // 24):
                    off, info, add = struct.unpack_from('<QQq', s['data'], k * 24)
                    r[off] = (info & 0xffffffff, self.syms[info >> 32], add)
        self.byname = {s['name']: s for s in self.syms if s['type'] != 3}

    def _bytes(self, s):
        return self.data[s[4]:s[4] + s[5]]

    @staticmethod
    def _str(b, o):
        return b[o:b.index(b'\0', o)].decode()

    def text_index(self):
        return next(i for i, s in enumerate(self.sec) if s['name'] == '.text')

    def disassemble(self):
        """{address: (mnemonic, [operands], next address, [(offset in instruction, reloc)])}"""
        out = subprocess.run(['objdump', '-d', '-w', '-M', 'suffix', '--no-show-raw-insn', '-j', '.text', self.path], capture_output=True, text=True, check=True).stdout
        addrs = []
        for l in out.split('\n'):
            m = re.match(r'\s*([0-9a-f]+):\s+(.*?)\s*$', l)
            if m:
                addrs.append((int(m.group(1), 16), m.group(2)))
        ti = self.text_index()
        rel = self.rel.get(ti, {})
        end = self.sec[ti]['size']
        roffs = sorted(rel)
        import bisect
        code = {}
        for i, (a, t) in enumerate(addrs):
            nxt = addrs[i + 1][0] if i + 1 < len(addrs) else end
            t = t.split('#')[0].strip()
            m = re.match(r'((?:rep[nez]* |lock |data16 |notrack )*)(\S+)\s*(.*)$', t)
            t = re.sub(r'<[^>]*>', '', m.group(3)).strip()
            ops, depth, cur = [], 0, ''
            for c in t:
                if c == '(':
                    depth += 1
                if c == ')':
                    depth -= 1
                if c == ',' and not depth:
                    ops.append(cur.strip())
                    cur = ''
                else:
                    cur += c
            if cur.strip():
                ops.append(cur.strip())
            lo, hi = bisect.bisect_left(roffs, a), bisect.bisect_left(roffs, nxt)
            code[a] = ((m.group(1) + m.group(2)).strip(), ops, nxt, [(o, rel[o]) for o in roffs[lo:hi]])
        return code
