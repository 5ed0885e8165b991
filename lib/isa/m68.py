"""Motorola 6800 and 6801 (words are stored high byte first)"""
PLAIN = '''NOP=01 TAP=06 TPA=07 INX=08 DEX=09 CLV=0A SEV=0B CLC=0C SEC=0D CLI=0E SEI=0F SBA=10 CBA=11 TAB=16 TBA=17 DAA=19 ABA=1B TSX=30 INS=31 PULA=32 PULB=33 DES=34 TXS=35 PSHA=36 PSHB=37
RTS=39 RTI=3B WAI=3E SWI=3F'''
PLAIN1 = 'LSRD=04 ASLD=05 LSLD=05 PULX=38 ABX=3A PSHX=3C MUL=3D'
RMW = dict(NEG=0, COM=3, LSR=4, ROR=6, ASR=7, ASL=8, LSL=8, ROL=9, DEC=0xA, INC=0xC, TST=0xD, CLR=0xF)
ALU = dict(SUB=0, CMP=1, SBC=2, AND=4, BIT=5, LDA=6, STA=7, EOR=8, ADC=9, ORA=0xA, ADD=0xB)
BRANCH = dict(BRA=0x20, BHI=0x22, BLS=0x23, BCC=0x24, BHS=0x24, BCS=0x25, BLO=0x25, BNE=0x26, BEQ=0x27, BVC=0x28, BVS=0x29, BPL=0x2A, BMI=0x2B, BGE=0x2C, BLT=0x2D, BGT=0x2E, BLE=0x2F, BSR=0x8D)
WORD = dict(CPX=0x8C, LDS=0x8E, LDX=0xCE, STS=0x8F, STX=0xCF, JSR=0x8D)
WORD1 = dict(SUBD=0x83, ADDD=0xC3, LDD=0xCC, STD=0xCD)
MODE = {'#x': ('#', 'n8'), '#?': ('#', 'w'), 'x': ('d', 'n8'), 'x,X': ('i', 'n8'), '?': ('e', 'w')}
ADD = {'#': 0, 'd': 0x10, 'i': 0x20, 'e': 0x30}


def encoder(cpu):
    plain = dict(x.split('=') for x in PLAIN.split())
    branch, word = dict(BRANCH), dict(WORD)
    if cpu == '6801':
        plain.update(x.split('=') for x in PLAIN1.split())
        branch['BRN'] = 0x21
        word.update(WORD1)

    def enc(text, value=0):
        m, _, rest = text.partition(' ')
        size = None
        if m[-2:] in ('.B', '.W'):
            m, size = m[:-2], m[-1]
        if not rest:
            if size:
                return None
            if m in plain:
                return [int(plain[m], 16)]
            if m[:-1] in RMW and m[-1] in 'AB':
                return [(0x40 if m[-1] == 'A' else 0x50) | RMW[m[:-1]]]
            return None
        if rest not in MODE:
            return None
        mode, kind = MODE[rest]
        if m in branch:
            return [branch[m], ('r8', 0)] if rest == 'x' and size != 'W' else None
        if size and size != ('W' if kind == 'w' else 'B'):
            return None
        if m in RMW or m == 'JMP':
            k = RMW.get(m, 0xE)
            return {'i': [0x60 | k, ('n8', 0)], 'e': [0x70 | k, ('w', 0)]}.get(mode)
        if m in word:
            if mode == '#' and (kind != 'w' or m[:2] in ('ST', 'JS')):
                return None
            if m == 'JSR' and mode == 'd' and cpu == '6800':
                return None
            return [word[m] + ADD[mode], (kind, 0)]
        if m[:-1] in ALU and m[-1] in 'AB':
            if mode == '#' and (kind != 'n8' or m[:2] == 'ST'):
                return None
            return [(0x80 if m[-1] == 'A' else 0xC0) + ALU[m[:-1]] + ADD[mode], (kind, 0)]
        return None
    return enc
