"""Zilog Z80, Z80N (Next extensions) and Sharp SM83 (Game Boy)"""
R = {'B': 0, 'C': 1, 'D': 2, 'E': 3, 'H': 4, 'L': 5, '(HL)': 6, 'A': 7}
XH = {'IXH': (0xDD, 4), 'HX': (0xDD, 4), 'IXL': (0xDD, 5), 'LX': (0xDD, 5), 'IYH': (0xFD, 4), 'HY': (0xFD, 4), 'IYL': (0xFD, 5), 'LY': (0xFD, 5)}
IDX = {'(IXs)': 0xDD, '(IYs)': 0xFD}
RR = {'BC': 0, 'DE': 1, 'HL': 2, 'SP': 3}
QQ = {'BC': 0, 'DE': 1, 'HL': 2, 'AF': 3}
CC = {'NZ': 0, 'NEQ': 0, 'Z': 1, 'EQU': 1, 'NC': 2, 'GTE': 2, 'GEQ': 2, 'C': 3, 'LSS': 3, 'LST': 3, 'PO': 4, 'PE': 5, 'P': 6, 'POS': 6, 'M': 7, 'NEG': 7}
ALU = {'ADD': 0, 'ADC': 1, 'SUB': 2, 'SBC': 3, 'AND': 4, 'XOR': 5, 'OR': 6, 'CP': 7}
ROT = {'RLC': 0, 'RRC': 1, 'RL': 2, 'RR': 3, 'SLA': 4, 'SRA': 5, 'SLL': 6, 'SL1': 6, 'SRL': 7}
BIT = {'BIT': 1, 'RES': 2, 'SET': 3}
PLAIN = {'NOP': 0, 'RLCA': 7, 'RRCA': 0xF, 'RLA': 0x17, 'RRA': 0x1F, 'DAA': 0x27, 'CPL': 0x2F, 'SCF': 0x37, 'CCF': 0x3F, 'HALT': 0x76, 'RET': 0xC9, 'DI': 0xF3, 'EI': 0xFB, 'EXX': 0xD9}
ED = {'NEG': 0x44, 'RETN': 0x45, 'RETI': 0x4D, 'RRD': 0x67, 'RLD': 0x6F, 'LDI': 0xA0, 'CPI': 0xA1, 'INI': 0xA2, 'OUTI': 0xA3, 'LDD': 0xA8, 'CPD': 0xA9, 'IND': 0xAA, 'OUTD': 0xAB,
      'LDIR': 0xB0, 'CPIR': 0xB1, 'INIR': 0xB2, 'OTIR': 0xB3, 'LDDR': 0xB8, 'CPDR': 0xB9, 'INDR': 0xBA, 'OTDR': 0xBB}
NEXT = {'LDIX': 0xA4, 'LDWS': 0xA5, 'LDDX': 0xAC, 'LDIRX': 0xB4, 'LIRX': 0xB4, 'LDPIRX': 0xB7, 'LPRX': 0xB7, 'LDDRX': 0xBC, 'LDRX': 0xBC, 'OUTINB': 0x90, 'OTIB': 0x90, 'PIXELDN': 0x93, 'PXDN': 0x93,
        'PIXELAD': 0x94, 'PXAD': 0x94, 'SETAE': 0x95, 'STAE': 0x95, 'SWAPNIB': 0x23, 'SWAP': 0x23}
NEXT2 = {('MIRROR', ('A',)): 0x24, ('MIRR', ('A',)): 0x24, ('BSLA', ('DE', 'B')): 0x28, ('BSRA', ('DE', 'B')): 0x29, ('BSRL', ('DE', 'B')): 0x2A, ('BSRF', ('DE', 'B')): 0x2B,
         ('BRLC', ('DE', 'B')): 0x2C, ('MUL', ('D', 'E')): 0x30, ('ADD', ('HL', 'A')): 0x31, ('ADD', ('DE', 'A')): 0x32, ('ADD', ('BC', 'A')): 0x33, ('JP', ('(C)',)): 0x98}


def encoder(cpu):
    gb = cpu == 'gb'

    def enc(text, value):
        text = text.replace("'", '')
        m, _, rest = text.partition(' ')
        a = tuple(rest.split(',')) if rest else ()
        n = len(a)
        # an explicit copy of a (IX+d) operation's result: LD r,OP (IX+d) is OP (IX+d),r
        if not gb and m == 'LD' and n >= 2 and ' ' in a[1]:
            op, _, r = ','.join(a[1:]).partition(' ')
            return enc('%s %s,%s' % (op, r, a[0]), value)
        if n == 0:
            if m == 'RST' and not gb:
                return [0xC7]
            if gb:
                if m == 'STOP':
                    return [0x10]
                if m == 'RETI':
                    return [0xD9]
                if m == 'EXX':
                    return None
                return [PLAIN[m]] if m in PLAIN else None
            if m in PLAIN:
                return [PLAIN[m]]
            if m in ED:
                return [0xED, ED[m]]
            if cpu == 'z80n' and m in NEXT:
                return [0xED, NEXT[m]]
            return None
        if cpu == 'z80n':
            if (m, a) in NEXT2:
                return [0xED, NEXT2[(m, a)]]
            if m == 'ADD' and n == 2 and a[1] == '?' and a[0] in ('HL', 'DE', 'BC'):
                return [0xED, {'HL': 0x34, 'DE': 0x35, 'BC': 0x36}[a[0]], ('w', 0)]
            if m == 'PUSH' and a == ('?',):
                return [0xED, 0x8A, ('wb', 0)]
            if m in ('NEXTREG', 'NREG') and a == ('x', 'x'):
                return [0xED, 0x91, ('n8', 0), ('n8', 1)]
            if m in ('NEXTREG', 'NREG') and a == ('x', 'A'):
                return [0xED, 0x92, ('n8', 0)]
            if m == 'TEST' and a == ('x',):
                return [0xED, 0x27, ('n8', 0)]
        if m in ALU:
            k = ALU[m]
            if gb and m == 'ADD' and a == ('SP', 's'):
                return [0xE8, ('s8', 0)]
            if n == 2 and a[0] == 'A' and (a[1] in R or a[1] == 'x' or (not gb and (a[1] in XH or a[1] in IDX))):
                return enc('%s %s' % (m, a[1]), value)
            if n == 1:
                r = a[0]
                if r in R:
                    return [0x80 | k << 3 | R[r]]
                if r == 'x':
                    return [0xC6 | k << 3, ('n8', 0)]
                if not gb and r in XH:
                    return [XH[r][0], 0x80 | k << 3 | XH[r][1]]
                if not gb and r in IDX:
                    return [IDX[r], 0x86 | k << 3, ('d8', 0)]
                return None
            if n == 2 and a[1] in RR and m == 'ADD' and a[0] == 'HL':
                return [0x09 | RR[a[1]] << 4]
            if gb or n != 2:
                return None
            if m == 'ADD' and a[0] in ('IX', 'IY'):
                rr = {**RR}
                rr.pop('HL')
                rr[a[0]] = 2
                return [0xDD if a[0] == 'IX' else 0xFD, 0x09 | rr[a[1]] << 4] if a[1] in rr else None
            if m in ('ADC', 'SBC') and a[0] == 'HL' and a[1] in RR:
                return [0xED, (0x4A if m == 'ADC' else 0x42) | RR[a[1]] << 4]
            return None
        if m in ('INC', 'DEC') and n == 1:
            d = m == 'DEC'
            r = a[0]
            if r in R:
                return [0x04 | R[r] << 3 | d]
            if r in RR:
                return [0x03 | RR[r] << 4 | d << 3]
            if gb:
                return None
            if r in ('IX', 'IY'):
                return [0xDD if r == 'IX' else 0xFD, 0x2B if d else 0x23]
            if r in XH:
                return [XH[r][0], 0x04 | XH[r][1] << 3 | d]
            if r in IDX:
                return [IDX[r], 0x34 | d, ('d8', 0)]
            return None
        if m == 'SWAP' and gb and n == 1 and a[0] in R:
            return [0xCB, 0x30 | R[a[0]]]
        if m in ROT and not (gb and ROT[m] == 6):
            k = ROT[m]
            if n == 1 and a[0] in R:
                return [0xCB, k << 3 | R[a[0]]]
            if not gb and a[0] in IDX:
                if n == 1:
                    return [IDX[a[0]], 0xCB, ('d8', 0), k << 3 | 6]
                if n == 2 and a[1] in R and a[1] != '(HL)':
                    return [IDX[a[0]], 0xCB, ('d8', 0), k << 3 | R[a[1]]]
            return None
        if m in BIT and a[0] == '*' and n >= 2 and 0 <= value <= 7:
            k = BIT[m] << 6 | value << 3
            if n == 2 and a[1] in R:
                return [0xCB, k | R[a[1]]]
            if not gb and a[1] in IDX:
                # operand 0 is the bit number
                if n == 2:
                    return [IDX[a[1]], 0xCB, ('d8', 1), k | 6]
                if n == 3 and m != 'BIT' and a[2] in R and a[2] != '(HL)':
                    return [IDX[a[1]], 0xCB, ('d8', 1), k | R[a[2]]]
            return None
        if m == 'RST' and a == ('*',):
            if value % 8 == 0 and 0 <= value <= 0x38:
                return [0xC7 | value]
            return None
        if m in ('JP', 'CALL'):
            if n == 2 and a[1] == '?' and a[0] in CC and not (gb and CC[a[0]] > 3):
                return [(0xC2 if m == 'JP' else 0xC4) | CC[a[0]] << 3, ('w', 0)]
            if a == ('?',):
                return [0xC3 if m == 'JP' else 0xCD, ('w', 0)]
            if m == 'JP' and a[0] in ('(HL)', 'HL') and n == 1:
                return [0xE9]
            if m == 'JP' and not gb and n == 1 and a[0].strip('()') in ('IX', 'IY'):
                return [0xDD if 'X' in a[0] else 0xFD, 0xE9]
            return None
        if m == 'RET' and n == 1 and a[0] in CC and not (gb and CC[a[0]] > 3):
            return [0xC0 | CC[a[0]] << 3]
        if m == 'JR' and a[-1] in ('x', 's'):
            if n == 1:
                return [0x18, ('r8', 0)]
            if a[0] in CC and CC[a[0]] < 4:
                return [0x20 | CC[a[0]] << 3, ('r8', 0)]
            return None
        if m == 'DJNZ' and a == ('x',) and not gb:
            return [0x10, ('r8', 0)]
        if m in ('PUSH', 'POP') and n == 1:
            if a[0] in QQ:
                return [(0xC5 if m == 'PUSH' else 0xC1) | QQ[a[0]] << 4]
            if not gb and a[0] in ('IX', 'IY'):
                return [0xDD if a[0] == 'IX' else 0xFD, 0xE5 if m == 'PUSH' else 0xE1]
            return None
        if gb:
            return gbx(m, a)
        if m == 'IM' and a == ('*',):
            return [0xED, {0: 0x46, 1: 0x56, 2: 0x5E}[value]] if value in (0, 1, 2) else None
        if m == 'EX':
            t = tuple(sorted(a))
            if t == ('AF', 'AF'):
                return [0x08]
            if t == ('DE', 'HL'):
                return [0xEB]
            if t == ('(SP)', 'HL'):
                return [0xE3]
            if t in (('(SP)', 'IX'), ('(SP)', 'IY')):
                return [0xDD if 'IX' in t else 0xFD, 0xE3]
            return None
        if m == 'IN':
            if a in (('A', '(x)'), ('A', 'x')):
                return [0xDB, ('n8', 0)]
            if a == ('(C)',) or a == ('F', '(C)'):
                return [0xED, 0x70]
            if n == 2 and a[1] == '(C)' and a[0] in R and a[0] != '(HL)':
                return [0xED, 0x40 | R[a[0]] << 3]
            return None
        if m == 'OUT':
            if a in (('(x)', 'A'), ('x', 'A')):
                return [0xD3, ('n8', 0)]
            if a == ('(C)', '0'):
                return [0xED, 0x71]
            if n == 2 and a[0] == '(C)' and a[1] in R and a[1] != '(HL)':
                return [0xED, 0x41 | R[a[1]] << 3]
            return None
        if m == 'LD' and n == 2:
            return ld(*a)
        return None

    def ld(d, s):
        if d == 'PC':           # the old name of JP
            return {'HL': [0xE9], 'IX': [0xDD, 0xE9], 'IY': [0xFD, 0xE9]}.get(s)
        if d in R and s in R and (d, s) != ('(HL)', '(HL)'):
            return [0x40 | R[d] << 3 | R[s]]
        if d in R and s == 'x':
            return [0x06 | R[d] << 3, ('n8', 0)]
        if d in XH and s == 'x':
            return [XH[d][0], 0x06 | XH[d][1] << 3, ('n8', 0)]
        if d in XH and s in XH and XH[d][0] == XH[s][0]:
            return [XH[d][0], 0x40 | XH[d][1] << 3 | XH[s][1]]
        if d in XH and s in R and s not in ('H', 'L', '(HL)'):
            return [XH[d][0], 0x40 | XH[d][1] << 3 | R[s]]
        if s in XH and d in R and d not in ('H', 'L', '(HL)'):
            return [XH[s][0], 0x40 | R[d] << 3 | XH[s][1]]
        if d in R and d != '(HL)' and s in IDX:
            return [IDX[s], 0x46 | R[d] << 3, ('d8', 0)]
        if d in IDX and s in R and s != '(HL)':
            return [IDX[d], 0x70 | R[s], ('d8', 0)]
        if d in IDX and s == 'x':
            return [IDX[d], 0x36, ('d8', 0), ('n8', 1)]
        if d in RR and s == '?':
            return [0x01 | RR[d] << 4, ('w', 0)]
        if d in ('IX', 'IY') and s in ('?', '(?)'):
            return [0xDD if d == 'IX' else 0xFD, 0x21 if s == '?' else 0x2A, ('w', 0)]
        if d == '(?)' and s in ('IX', 'IY'):
            return [0xDD if s == 'IX' else 0xFD, 0x22, ('w', 0)]
        if d == 'A' and s == '(?)':
            return [0x3A, ('w', 0)]
        if d == '(?)' and s == 'A':
            return [0x32, ('w', 0)]
        if d == 'HL' and s == '(?)':
            return [0x2A, ('w', 0)]
        if d == '(?)' and s == 'HL':
            return [0x22, ('w', 0)]
        if d in RR and s == '(?)':
            return [0xED, 0x4B | RR[d] << 4, ('w', 0)]
        if d == '(?)' and s in RR:
            return [0xED, 0x43 | RR[s] << 4, ('w', 0)]
        return {('A', '(BC)'): [0x0A], ('A', '(DE)'): [0x1A], ('(BC)', 'A'): [0x02], ('(DE)', 'A'): [0x12], ('SP', 'HL'): [0xF9], ('SP', 'IX'): [0xDD, 0xF9], ('SP', 'IY'): [0xFD, 0xF9],
                ('A', 'I'): [0xED, 0x57], ('A', 'R'): [0xED, 0x5F], ('I', 'A'): [0xED, 0x47], ('R', 'A'): [0xED, 0x4F]}.get((d, s))

    def gbx(m, a):
        if m == 'STOP' and a == ('x',):
            return [0x10, ('n8', 0)]
        if m == 'CPL' and a == ('A',):
            return [0x2F]
        inc, dec = ('(HL+)', '(HLI)'), ('(HL-)', '(HLD)')
        if m in ('LDI', 'LDD'):
            c = 0x2A if m == 'LDI' else 0x3A
            return [c] if a == ('A', '(HL)') else [c - 8] if a == ('(HL)', 'A') else None
        if m == 'LDH':
            return {('A', '(C)'): [0xF2], ('(C)', 'A'): [0xE2], ('A', '(x)'): [0xF0, ('n8', 0)], ('(x)', 'A'): [0xE0, ('n8', 0)]}.get(a)
        if m in ('LDHL',) and a == ('SP', 's'):
            return [0xF8, ('s8', 0)]
        if m != 'LD' or len(a) != 2:
            return None
        d, s = a
        if d in R and s in R and (d, s) != ('(HL)', '(HL)'):
            return [0x40 | R[d] << 3 | R[s]]
        if d in R and s == 'x':
            return [0x06 | R[d] << 3, ('n8', 0)]
        if d in RR and s == '?':
            return [0x01 | RR[d] << 4, ('w', 0)]
        if d == 'A' and (s in inc or s in dec):
            return [0x2A if s in inc else 0x3A]
        if s == 'A' and (d in inc or d in dec):
            return [0x22 if d in inc else 0x32]
        if d == 'HL' and s in ('SP+s', 'SP-s', 'SPs'):
            return [0xF8, ('s8', 0)]
        return {('PC', 'HL'): [0xE9], ('A', '(BC)'): [0x0A], ('A', '(DE)'): [0x1A], ('(BC)', 'A'): [0x02], ('(DE)', 'A'): [0x12], ('SP', 'HL'): [0xF9], ('(?)', 'A'): [0xEA, ('w', 0)], ('A', '(?)'): [0xFA, ('w', 0)],
                ('(?)', 'SP'): [0x08, ('w', 0)], ('A', '($FF00+C)'): [0xF2], ('($FF00+C)', 'A'): [0xE2], ('A', '($FF00+x)'): [0xF0, ('n8', 0)], ('($FF00+x)', 'A'): [0xE0, ('n8', 0)]}.get((d, s))
    return enc
