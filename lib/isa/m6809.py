"""Motorola 6809 (words are stored high byte first).  ('pb5', k, base): the index postbyte base | (operand k & 31), k between -16 and 15.
('exg',) and ('psh',): the byte that names the registers of EXG/TFR and of PSH/PUL."""
import re

PLAIN = dict(NOP=0x12, SYNC=0x13, DAA=0x19, SEX=0x1D, RTS=0x39, ABX=0x3A, RTI=0x3B, MUL=0x3D, SWI=0x3F, SWI1=0x3F, SWI2=0x103F, SWI3=0x113F)
RMW = dict(NEG=0, COM=3, LSR=4, ROR=6, ASR=7, ASL=8, LSL=8, ROL=9, DEC=0xA, INC=0xC, TST=0xD, CLR=0xF)
IMM8 = dict(SUBA=0x80, CMPA=0x81, SBCA=0x82, ANDA=0x84, BITA=0x85, LDA=0x86, EORA=0x88, ADCA=0x89, ORA=0x8A, ADDA=0x8B)
IMM8.update({k[:-1] + 'B': v + 0x40 for k, v in list(IMM8.items())})
ST = dict(STA=0x87, STB=0xC7, STD=0xCD, STX=0x8F, STU=0xCF, STY=0x108F, STS=0x10CF, JSR=0x8D)
IMM16 = dict(SUBD=0x83, ADDD=0xC3, CMPX=0x8C, LDX=0x8E, LDD=0xCC, LDU=0xCE, CMPD=0x1083, CMPY=0x108C, LDY=0x108E, LDS=0x10CE, CMPU=0x1183, CMPS=0x118C)
CC = dict(ANDCC=0x1C, ORCC=0x1A, CWAI=0x3C)
LEA = dict(LEAX=0x30, LEAY=0x31, LEAS=0x32, LEAU=0x33)
BRANCH = dict(BRA=0x20, BRN=0x21, BHI=0x22, BLS=0x23, BCC=0x24, BHS=0x24, BCS=0x25, BLO=0x25, BNE=0x26, BEQ=0x27, BVC=0x28, BVS=0x29, BPL=0x2A, BMI=0x2B, BGE=0x2C, BLT=0x2D, BGT=0x2E, BLE=0x2F)
REGS = {'EXG': (0x1E, 'exg'), 'TFR': (0x1F, 'exg'), 'PSHS': (0x34, 'psh'), 'PULS': (0x35, 'psh'), 'PSHU': (0x36, 'psh'), 'PULU': (0x37, 'psh')}
RR = dict(X=0x00, Y=0x20, U=0x40, S=0x60)


def op(n):
    return [n >> 8, n & 255] if n > 255 else [n]


def index(a):
    """items of an indexed operand: the postbyte and what follows it"""
    ind = 0
    if a[0] == '(' and a[-1] == ')':
        ind, a = 0x10, a[1:-1]
        if a == '?':
            return [0x9F, ('w', 0)]
    if ',' not in a:
        return None
    off, r = a.split(',', 1)
    if r == 'PCR':
        return {'x': [0x8C | ind, ('r8', 0)], '?': [0x8D | ind, ('r16', 0)]}.get(off)
    if off == '':
        for form, k in (('%s++', 1), ('--%s', 3), ('%s+', 0), ('-%s', 2), ('%s', 4)):
            for q in RR:
                if form % q == r:
                    return None if ind and k in (0, 2) else [0x80 | RR[q] | ind | k]
        return None
    if r not in RR:
        return None
    if off in ('A', 'B', 'D'):
        return [0x80 | RR[r] | ind | {'A': 6, 'B': 5, 'D': 0xB}[off]]
    if off == 's':
        return None if ind else [('pb5', 0, RR[r])]
    return {'x': [0x88 | RR[r] | ind, ('d8', 0)], '?': [0x89 | RR[r] | ind, ('w', 0)]}.get(off)


def encoder(cpu):
    def enc(text, value=0):
        w = re.match(r'([A-Z0-9.]+) ?(.*)$', text)
        m, a = w.group(1), w.group(2)
        size = None
        if m[-2:] in ('.B', '.W'):
            m, size = m[:-2], m[-1]
        if not a:
            if m in PLAIN:
                return op(PLAIN[m])
            if m[:-1] in RMW and m[-1] in 'AB':
                return [(0x40 if m[-1] == 'A' else 0x50) | RMW[m[:-1]]]
            return None
        if m in REGS and a == 'r':
            return [REGS[m][0], (REGS[m][1],)]
        if m in CC and a == '#x':
            return [CC[m], ('n8', 0)]
        if a == '#x':
            return [IMM8[m], ('n8', 0)] if m in IMM8 else None
        if a == '#?':
            return op(IMM16[m]) + [('w', 0)] if m in IMM16 else None
        if a == 'x' and (m in BRANCH or m == 'BSR'):
            return [BRANCH.get(m, 0x8D), ('r8', 0)]
        if a == '?' and m[0] == 'L' and (m[1:] in BRANCH or m in ('LBSR', 'LBRA')):
            return ([0x16] if m == 'LBRA' else [0x17] if m == 'LBSR' else op(0x1000 | BRANCH[m[1:]])) + [('r16', 0)]
        if m in LEA:
            i = index(a)
            return i and [LEA[m]] + i
        base = IMM8.get(m, IMM16.get(m, ST.get(m)))
        if base is None and (m in RMW or m == 'JMP'):
            k = RMW.get(m, 0xE)
            d, x, e = k, 0x60 | k, 0x70 | k
        elif base is not None:
            d, x, e = base + 0x10, base + 0x20, base + 0x30
        else:
            return None
        if a == 'x':
            return op(d) + [('n8', 0)]
        if a == '?':
            return op(e) + [('w', 0)]
        i = index(a)
        return i and op(x) + i
    return enc
