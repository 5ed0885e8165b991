"""Intel 8080 and 8008"""
R = {c: k for k, c in enumerate('BCDEHLMA')}
RP = {'B': 0, 'D': 1, 'H': 2, 'SP': 3}
RPW = {'B': 0, 'D': 1, 'H': 2, 'PSW': 3}
CC = {'NZ': 0, 'Z': 1, 'NC': 2, 'C': 3, 'PO': 4, 'PE': 5, 'P': 6, 'M': 7}
ALU = dict(ADD=0, ADC=1, SUB=2, SBB=3, ANA=4, XRA=5, ORA=6, CMP=7)
IMM = dict(ADI=0, ACI=1, SUI=2, SBI=3, ANI=4, XRI=5, ORI=6, CPI=7)
PLAIN = dict(NOP=0, RLC=7, RRC=0xF, RAL=0x17, RAR=0x1F, DAA=0x27, CMA=0x2F, STC=0x37, CMC=0x3F, HLT=0x76, RET=0xC9, PCHL=0xE9, SPHL=0xF9, XTHL=0xE3, XCHG=0xEB, DI=0xF3, EI=0xFB)
DIRECT = dict(SHLD=0x22, LHLD=0x2A, STA=0x32, LDA=0x3A, JMP=0xC3, CALL=0xCD)


def i8080(text, value):
    m, _, rest = text.partition(' ')
    a = tuple(rest.split(',')) if rest else ()
    if not a:
        if m in PLAIN:
            return [PLAIN[m]]
        if m[0] == 'R' and m[1:] in CC:
            return [0xC0 | CC[m[1:]] << 3]
        return None
    if len(a) == 1:
        x = a[0]
        if m in ALU and x in R:
            return [0x80 | ALU[m] << 3 | R[x]]
        if m in IMM and x == 'x':
            return [0xC6 | IMM[m] << 3, ('n8', 0)]
        if m in ('INR', 'DCR') and x in R:
            return [(4 if m == 'INR' else 5) | R[x] << 3]
        if m in ('INX', 'DAD', 'DCX') and x in RP:
            return [{'INX': 3, 'DAD': 9, 'DCX': 0xB}[m] | RP[x] << 4]
        if m in ('PUSH', 'POP') and x in RPW:
            return [(0xC5 if m == 'PUSH' else 0xC1) | RPW[x] << 4]
        if m in ('STAX', 'LDAX') and x in ('B', 'D'):
            return [(2 if m == 'STAX' else 0xA) | RP[x] << 4]
        if m in ('IN', 'OUT') and x == 'x':
            return [0xDB if m == 'IN' else 0xD3, ('n8', 0)]
        if x == '?':
            if m in DIRECT:
                return [DIRECT[m], ('w', 0)]
            if m[0] in 'JC' and m[1:] in CC:
                return [(0xC2 if m[0] == 'J' else 0xC4) | CC[m[1:]] << 3, ('w', 0)]
        if m == 'RST' and x == '*' and 0 <= value <= 7:
            return [0xC7 | value << 3]
        return None
    if len(a) == 2:
        if m == 'MOV' and a[0] in R and a[1] in R and a != ('M', 'M'):
            return [0x40 | R[a[0]] << 3 | R[a[1]]]
        if m == 'MVI' and a[0] in R and a[1] == 'x':
            return [6 | R[a[0]] << 3, ('n8', 0)]
        if m == 'LXI' and a[0] in RP and a[1] == '?':
            return [1 | RP[a[0]] << 4, ('w', 0)]
    return None


R8 = {c: k for k, c in enumerate('ABCDEHLM')}
C8 = dict(C=0, Z=1, S=2, P=3)
A8 = dict(AD=0, AC=1, SU=2, SB=3, ND=4, XR=5, OR=6, CP=7)


def i8008(text, value):
    m, _, x = text.partition(' ')
    if not x:
        if m in ('NOP', 'HLT', 'RLC', 'RRC', 'RAL', 'RAR', 'RET'):
            return [dict(NOP=0xC0, HLT=0xFF, RLC=2, RRC=0xA, RAL=0x12, RAR=0x1A, RET=7)[m]]
        if len(m) == 3 and m[0] == 'R' and m[1] in 'FT' and m[2] in C8:
            return [3 | (m[1] == 'T') << 5 | C8[m[2]] << 3]
        if m[:2] in A8 and m[2:] in R8:
            return [0x80 | A8[m[:2]] << 3 | R8[m[2:]]]
        if m[:2] in ('IN', 'DC') and m[2:] in R8 and m[2] not in 'AM':
            return [(m[:2] == 'DC') | R8[m[2:]] << 3]
        if len(m) == 3 and m[0] == 'L' and m[1] in R8 and m[2] in R8 and m != 'LMM':
            return [0xC0 | R8[m[1]] << 3 | R8[m[2]]]
        return None
    if x == 'x' and m[-1] == 'I':
        if m[:2] in A8:
            return [4 | A8[m[:2]] << 3, ('n8', 0)]
        if len(m) == 3 and m[0] == 'L' and m[1] in R8:
            return [6 | R8[m[1]] << 3, ('n8', 0)]
    if x == '?':
        if m in ('JMP', 'CAL'):
            return [0x44 if m == 'JMP' else 0x46, ('w', 0)]
        if len(m) == 3 and m[0] in 'JC' and m[1] in 'FT' and m[2] in C8:
            return [0x40 | 2 * (m[0] == 'C') | (m[1] == 'T') << 5 | C8[m[2]] << 3, ('w', 0)]
    if x == '*':
        if m == 'RST' and 0 <= value <= 7:
            return [5 | value << 3]
        if m == 'INP' and 0 <= value <= 7:
            return [0x41 | value << 1]
        if m == 'OUT' and 8 <= value <= 31:
            return [0x41 | value << 1]
    return None


def encoder(cpu):
    return i8080 if cpu == '8080' else i8008
