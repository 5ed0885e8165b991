"""Sony SPC700.  ('op', k, base, shift): the byte base | operand k << shift (bit number 0-7; TCALL 0-15).
('mb', k): a 16-bit word with the address (operand k, 0-8191) in the low 13 bits and the bit number (operand k+1) above it."""
ALU = dict(OR=0x00, AND=0x20, EOR=0x40, CMP=0x60, ADC=0x80, SBC=0xA0)
ALUM = {'A,(X)': 6, 'A,#x': 8, 'A,!?+X': 0x15, 'A,!?+Y': 0x16, 'A,!?': 5, 'A,[x+X]': 7, 'A,[x]+Y': 0x17, 'A,x+X': 0x14, 'A,x': 4, '(X),(Y)': 0x19, 'x,#x': 0x18, 'x,x': 9}
SHIFT = dict(ASL=0x00, ROL=0x20, LSR=0x40, ROR=0x60)
SHIFTM = {'!?': 0x0C, 'A': 0x1C, 'x+X': 0x1B, 'x': 0x0B}
STEP = dict(DEC=0x80, INC=0xA0)
BRANCH = dict(BCC=0x90, BCS=0xB0, BEQ=0xF0, BMI=0x30, BNE=0xD0, BPL=0x10, BRA=0x2F, BVC=0x50, BVS=0x70)
PLAIN = {'BRK': 0x0F, 'CLRC': 0x60, 'CLRP': 0x20, 'CLRV': 0xE0, 'DAA': 0xDF, 'DAA A': 0xDF, 'DAS': 0xBE, 'DAS A': 0xBE, 'DI': 0xC0, 'EI': 0xA0, 'DIV YA,X': 0x9E, 'MUL YA': 0xCF, 'NOP': 0,
         'NOTC': 0xED, 'POP A': 0xAE, 'POP PSW': 0x8E, 'POP X': 0xCE, 'POP Y': 0xEE, 'PUSH A': 0x2D, 'PUSH PSW': 0x0D, 'PUSH X': 0x4D, 'PUSH Y': 0x6D, 'RET': 0x6F, 'RETI': 0x7F,
         'SETC': 0x80, 'SETP': 0x40, 'SLEEP': 0xEF, 'STOP': 0xFF, 'XCN A': 0x9F, 'INC X': 0x3D, 'INC Y': 0xFC, 'DEC X': 0x1D, 'DEC Y': 0xDC}
DP = {'ADDW YA,x': 0x7A, 'CMPW YA,x': 0x5A, 'MOVW YA,x': 0xBA, 'MOVW x,YA': 0xDA, 'SUBW YA,x': 0x9A, 'DECW x': 0x1A, 'INCW x': 0x3A, 'PCALL x': 0x4F, 'CMP X,#x': 0xC8, 'CMP X,x': 0x3E,
      'CMP Y,#x': 0xAD, 'CMP Y,x': 0x7E}
ABS = {'CALL !?': 0x3F, 'JMP !?': 0x5F, 'JMP [!?+X]': 0x1F, 'TCLR1 !?': 0x4E, 'TSET1 !?': 0x0E, 'CMP X,!?': 0x1E, 'CMP Y,!?': 0x5E}
MOV = {'A,#x': 0xE8, 'A,(X)+': 0xBF, 'A,(X)': 0xE6, 'A,!?+X': 0xF5, 'A,!?+Y': 0xF6, 'A,!?': 0xE5, 'A,X': 0x7D, 'A,Y': 0xDD, 'A,[x+X]': 0xE7, 'A,[x]+Y': 0xF7, 'A,x+X': 0xF4, 'A,x': 0xE4,
       'SP,X': 0xBD, 'X,A': 0x5D, 'X,!?': 0xE9, 'X,SP': 0x9D, 'X,#x': 0xCD, 'X,x+Y': 0xF9, 'X,x': 0xF8, '(X)+,A': 0xAF, '(X),A': 0xC6, '[x+X],A': 0xC7, '[x]+Y,A': 0xD7, '!?+X,A': 0xD5,
       '!?,A': 0xC5, '!?,X': 0xC9, '!?+Y,A': 0xD6, '!?,Y': 0xCC, 'Y,!?': 0xEC, 'Y,A': 0xFD, 'Y,#x': 0x8D, 'Y,x+X': 0xFB, 'Y,x': 0xEB, 'x,A': 0xC4, 'x,#x': 0x8F, 'x,X': 0xD8, 'x+X,A': 0xD4,
       'x+X,Y': 0xDB, 'x+Y,X': 0xD9, 'x,Y': 0xCB, 'x,x': 0xFA}
BIT = {'AND1 C,/?.~': 0x6A, 'AND1 C,?.~': 0x4A, 'EOR1 C,?.~': 0x8A, 'MOV1 C,?.~': 0xAA, 'MOV1 ?.~,C': 0xCA, 'NOT1 ?.~': 0xEA, 'OR1 C,/?.~': 0x2A, 'OR1 C,?.~': 0x0A}


def args(op, rest):
    if rest.count('x') == 2:
        return [op, ('n8', 1), ('n8', 0)]  # the source stands first
    if 'x' in rest:
        return [op, ('n8', 0)]
    if '?' in rest:
        return [op, ('w', 0)]
    return [op]


def encoder(cpu):
    def enc(text, value=0):
        text = text.replace(',~', '.~')
        m, _, rest = text.partition(' ')
        if text in PLAIN:
            return [PLAIN[text]]
        if text in DP:
            return args(DP[text], rest)
        if text in ABS:
            return args(ABS[text], rest)
        if m in ALU and rest in ALUM:
            return args(ALU[m] | ALUM[rest], rest)
        if m in SHIFT and rest in SHIFTM:
            return args(SHIFT[m] | SHIFTM[rest], rest)
        if m in STEP and rest in SHIFTM:
            return args(STEP[m] | SHIFTM[rest], rest)
        if m == 'MOV' and rest in MOV:
            return args(MOV[rest], rest)
        if m in BRANCH and rest == 'x':
            return [BRANCH[m], ('r8', 0)]
        if text in BIT:
            return [BIT[text], ('mb', 0)]
        return {'BBC x.~,x': [('op', 1, 0x13, 5), ('n8', 0), ('r8', 2)], 'BBS x.~,x': [('op', 1, 0x03, 5), ('n8', 0), ('r8', 2)], 'CLR1 x.~': [('op', 1, 0x12, 5), ('n8', 0)],
                'SET1 x.~': [('op', 1, 0x02, 5), ('n8', 0)], 'TCALL ~': [('op', 0, 0x01, 4)], 'CBNE x+X,x': [0xDE, ('n8', 0), ('r8', 1)], 'CBNE x,x': [0x2E, ('n8', 0), ('r8', 1)],
                'DBNZ Y,x': [0xFE, ('r8', 0)], 'DBNZ x,x': [0x6E, ('n8', 0), ('r8', 1)]}.get(text)
    return enc
