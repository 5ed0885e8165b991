"""Super FX (GSU).  R* is a register given as a number (operand k); ('op', k, base, 0): the byte base | operand k; e: branch target; y: even byte address, stored halved."""
PLAIN = {'ALT1': 0x3D, 'ALT2': 0x3E, 'ALT3': 0x3F, 'ASR': 0x96, 'CACHE': 0x02, 'CMODE': 0x3D4E, 'COLOR': 0x4E, 'DIV2': 0x3D96, 'FMULT': 0x9F, 'GETB': 0xEF, 'GETBH': 0x3DEF, 'GETBL': 0x3EEF,
         'GETBS': 0x3FEF, 'GETC': 0xDF, 'HIB': 0xC0, 'LMULT': 0x3D9F, 'LOB': 0x9E, 'LOOP': 0x3C, 'LSR': 0x03, 'MERGE': 0x70, 'NOP': 0x01, 'NOT': 0x4F, 'PLOT': 0x4C, 'RAMB': 0x3EDF, 'ROL': 0x04,
         'ROMB': 0x3FDF, 'ROR': 0x97, 'RPIX': 0x3D4C, 'SBK': 0x90, 'SEX': 0x95, 'STOP': 0x00, 'SWAP': 0x4D}
BRANCH = dict(BRA=5, BGE=6, BLT=7, BNE=8, BEQ=9, BPL=0xA, BMI=0xB, BCC=0xC, BCS=0xD, BVC=0xE, BVS=0xF)
# text: (prefix, base, lowest, highest operand)
ONE = {'ADC R*': (0x3D, 0x50, 0, 15), 'ADC #*': (0x3F, 0x50, 0, 15), 'ADD R*': (None, 0x50, 0, 15), 'ADD #*': (0x3E, 0x50, 0, 15), 'AND R*': (None, 0x70, 1, 15), 'AND #*': (0x3E, 0x70, 1, 15),
       'BIC R*': (0x3D, 0x70, 1, 15), 'BIC #*': (0x3F, 0x70, 1, 15), 'CMP R*': (0x3F, 0x60, 0, 15), 'DEC R*': (None, 0xE0, 0, 14), 'FROM R*': (None, 0xB0, 0, 15), 'INC R*': (None, 0xD0, 0, 14),
       'JMP R*': (None, 0x90, 8, 13), 'LJMP R*': (0x3D, 0x90, 8, 13), 'LDB (R*)': (0x3D, 0x40, 0, 11), 'LDW (R*)': (None, 0x40, 0, 11), 'LINK #*': (None, 0x90, 1, 4), 'MULT R*': (None, 0x80, 0, 15),
       'MULT #*': (0x3E, 0x80, 0, 15), 'OR R*': (None, 0xC0, 1, 15), 'OR #*': (0x3E, 0xC0, 1, 15), 'SBC R*': (0x3D, 0x60, 0, 15), 'STB (R*)': (0x3D, 0x30, 0, 11), 'STW (R*)': (None, 0x30, 0, 11),
       'SUB R*': (None, 0x60, 0, 15), 'SUB #*': (0x3E, 0x60, 0, 15), 'TO R*': (None, 0x10, 0, 15), 'UMULT R*': (0x3D, 0x80, 0, 15), 'UMULT #*': (0x3F, 0x80, 0, 15), 'WITH R*': (None, 0x20, 0, 15),
       'XOR R*': (0x3D, 0xC0, 1, 15), 'XOR #*': (0x3F, 0xC0, 1, 15)}


def r(k, base, lo=0, hi=15):
    return ('op', k, base, 0, lo, hi)


def encoder(cpu):
    def enc(text, value=0):
        if text in PLAIN:
            n = PLAIN[text]
            return [n >> 8, n & 255] if n > 255 else [n]
        if text[:3] in BRANCH and text[3:] == ' e':
            return [BRANCH[text[:3]], ('r8', 0)]
        if text in ONE:
            p, b, lo, hi = ONE[text]
            return ([p] if p else []) + [r(0, b, lo, hi)]
        return {'IBT R*,#x': [r(0, 0xA0), ('n8', 1)], 'IWT R*,#?': [r(0, 0xF0), ('w', 1)], 'LEA R*,?': [r(0, 0xF0), ('w', 1)], 'LM R*,(?)': [0x3D, r(0, 0xF0), ('w', 1)],
                'LMS R*,(y)': [0x3D, r(0, 0xA0), ('half', 1)], 'SM (?),R*': [0x3E, r(1, 0xF0), ('w', 0)], 'SMS (y),R*': [0x3E, r(1, 0xA0), ('half', 0)],
                'MOVE R*,R*': [r(1, 0x20), r(0, 0x10)], 'MOVES R*,R*': [r(0, 0x20), r(1, 0xB0)], 
                # with R0 the TO or FROM is not needed
                'MOVEB R*,(R*)': [('alt', ([r(0, 0x10), 0x3D, r(1, 0x40, 0, 11)], [('is', 0, 0), 0x3D, r(1, 0x40, 0, 11)]))],
                'MOVEW R*,(R*)': [('alt', ([r(0, 0x10), r(1, 0x40, 0, 11)], [('is', 0, 0), r(1, 0x40, 0, 11)]))],
                'MOVEB (R*),R*': [('alt', ([r(1, 0xB0), 0x3D, r(0, 0x30, 0, 11)], [('is', 1, 0), 0x3D, r(0, 0x30, 0, 11)]))],
                'MOVEW (R*),R*': [('alt', ([r(1, 0xB0), r(0, 0x30, 0, 11)], [('is', 1, 0), r(0, 0x30, 0, 11)]))],
                # the shortest instruction that does it is chosen from the value
                'MOVE R*,#?': [('alt', ([r(0, 0xA0), ('s8', 1)], [r(0, 0xF0), ('w', 1)]))],
                'MOVE R*,(?)': [('alt', ([0x3D, r(0, 0xA0), ('half', 1)], [0x3D, r(0, 0xF0), ('w', 1)]))],
                'MOVE (?),R*': [('alt', ([0x3E, r(1, 0xA0), ('half', 0)], [0x3E, r(1, 0xF0), ('w', 0)]))]}.get(text)
    return enc
