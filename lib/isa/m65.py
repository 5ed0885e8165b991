"""MOS 6502 (with undocumented opcodes), WDC 65C02, CSG 65CE02, WDC 65816, HuC6280.

Modes: - none, A accumulator, # immediate (8-bit), ## immediate (16-bit), z direct page, zx zy direct page indexed, a absolute, ax ay absolute indexed, l long, lx long indexed,
(zx) (z)y (z) (z)z direct page indirect, [z] [z]y long indirect, s stack, (s)y stack indirect, (a) (ax) [a] absolute indirect, r r16 relative."""
MODE = {'': '-', 'A': 'A', '#x': '#', '#?': '##', 'x': 'z', 'x,X': 'zx', 'x,Y': 'zy', '?': 'a', '?,X': 'ax', '?,Y': 'ay', '&': 'l', '&,X': 'lx', '(x,X)': '(zx)', '(x),Y': '(z)y', '(x)': '(z)',
        '(x),Z': '(z)z', '[x]': '[z]', '[x],Y': '[z]y', 'x,S': 's', '(x,S),Y': '(s)y', '(?)': '(a)', '(?,X)': '(ax)', '[?]': '[a]'}
SIZE = {'z': 'B', 'zx': 'B', 'zy': 'B', '#': 'B', '(zx)': 'B', '(z)y': 'B', '(z)': 'B', '(z)z': 'B', '[z]': 'B', '[z]y': 'B', 's': 'B', '(s)y': 'B', 'a': 'W', 'ax': 'W', 'ay': 'W', '##': 'W',
        '(a)': 'W', '(ax)': 'W', '[a]': 'W', 'l': 'L', 'lx': 'L'}
ITEM = {'B': 'n8', 'W': 'w', 'L': 't'}


def table(text):
    d = {}
    for line in text.strip().splitlines():
        w = line.split()
        for x in w[1:]:
            m, c = x.rsplit('=', 1)
            d[(w[0], m)] = int(c, 16)
    return d


BASE = '''
BRK -=00
PHP -=08
PLP -=28
PHA -=48
PLA -=68
DEY -=88
TAY -=A8
INY -=C8
INX -=E8
CLC -=18
SEC -=38
CLI -=58
SEI -=78
TYA -=98
CLV -=B8
CLD -=D8
SED -=F8
TXA -=8A
TXS -=9A
TAX -=AA
TSX -=BA
DEX -=CA
NOP -=EA
RTI -=40
RTS -=60
JSR a=20
JMP a=4C (a)=6C
BIT z=24 a=2C
ASL A=0A -=0A z=06 a=0E zx=16 ax=1E
ROL A=2A -=2A z=26 a=2E zx=36 ax=3E
LSR A=4A -=4A z=46 a=4E zx=56 ax=5E
ROR A=6A -=6A z=66 a=6E zx=76 ax=7E
STX z=86 a=8E zy=96
LDX #=A2 z=A6 a=AE zy=B6 ay=BE
DEC z=C6 a=CE zx=D6 ax=DE
INC z=E6 a=EE zx=F6 ax=FE
STY z=84 a=8C zx=94
LDY #=A0 z=A4 a=AC zx=B4 ax=BC
CPY #=C0 z=C4 a=CC
CPX #=E0 z=E4 a=EC
'''
BRANCH = dict(BPL=0x10, BMI=0x30, BVC=0x50, BVS=0x70, BCC=0x90, BCS=0xB0, BNE=0xD0, BEQ=0xF0)
GROUP1 = dict(ORA=0, AND=1, EOR=2, ADC=3, STA=4, LDA=5, CMP=6, SBC=7)
G1MODE = {'(zx)': 1, 'z': 5, '#': 9, 'a': 0xD, '(z)y': 0x11, 'zx': 0x15, 'ay': 0x19, 'ax': 0x1D}
UNDOC = '''
SLO (zx)=03 z=07 a=0F (z)y=13 zx=17 ay=1B ax=1F
RLA (zx)=23 z=27 a=2F (z)y=33 zx=37 ay=3B ax=3F
SRE (zx)=43 z=47 a=4F (z)y=53 zx=57 ay=5B ax=5F
RRA (zx)=63 z=67 a=6F (z)y=73 zx=77 ay=7B ax=7F
SAX (zx)=83 z=87 a=8F zy=97
LAX (zx)=A3 z=A7 a=AF (z)y=B3 zy=B7 ay=BF
DCP (zx)=C3 z=C7 a=CF (z)y=D3 zx=D7 ay=DB ax=DF
ISC (zx)=E3 z=E7 a=EF (z)y=F3 zx=F7 ay=FB ax=FF
ANC #=0B
ANC2 #=2B
ALR #=4B
ARR #=6B
ANE #=8B
LXA #=AB
AXS #=CB
SBX #=CB
USBC #=EB
SHA (z)y=93 ay=9F
SHX ay=9E
SHY ax=9C
TAS ay=9B
LAS ay=BB
JAM -=02
NOP #=80 z=04 a=0C zx=14 ax=1C
'''
CMOS = '''
BIT #=89 zx=34 ax=3C
DEA -=3A
INA -=1A
DEC A=3A -=3A
INC A=1A -=1A
JMP (ax)=7C
PHX -=DA
PHY -=5A
PLX -=FA
PLY -=7A
STZ z=64 a=9C zx=74 ax=9E
TRB z=14 a=1C
TSB z=04 a=0C
'''
WDC = '''
WAI -=CB
STP -=DB
'''
CE02 = '''
CLE -=02
SEE -=03
TSY -=0B
INZ -=1B
TYS -=2B
DEZ -=3B
TAZ -=4B
TAB -=5B
TZA -=6B
TBA -=7B
NEG -=42
ASR A=43 -=43 z=44 zx=54
JSR (a)=22 (ax)=23
RTS #=62
STA (s)y=82
LDA (s)y=E2
STY ax=8B
STX ay=9B
LDZ #=A3 a=AB ax=BB
CPZ #=C2 z=D4 a=DC
DEW z=C3
INW z=E3
ASW a=CB
ROW a=EB
PHW ##=F4 a=FC
PHZ -=DB
PLZ -=FB
AUG -=5C
MAP -=5C
'''
W816 = '''
COP -=02 z=02
BRK z=00
PHD -=0B
TCS -=1B
TAS -=1B
PLD -=2B
TSC -=3B
TSA -=3B
PHK -=4B
TCD -=5B
TAD -=5B
RTL -=6B
TDC -=7B
TDA -=7B
PHB -=8B
TXY -=9B
PLB -=AB
TYX -=BB
XBA -=EB
SWA -=EB
XCE -=FB
WDM z=42
REP #=C2
SEP #=E2
PEA a=F4
PEI (z)=D4
JMP l=5C [a]=DC
JML l=5C [a]=DC
JSR l=22 (ax)=FC
JSL l=22
MVN a=54
MVP a=44
'''
HUC = '''
SXY -=02
SAX -=22
SAY -=42
CSL -=54
CLA -=62
CLX -=82
CLY -=C2
CSH -=D4
SET -=F4
ST0 #=03
ST1 #=13
ST2 #=23
TMA #=43
TAM #=53
'''


def encoder(cpu):
    T = table(BASE)
    for m, k in GROUP1.items():
        for mode, c in G1MODE.items():
            if (m, mode) != ('STA', '#'):
                T[(m, mode)] = k << 5 | c
    br = dict(BRANCH)
    bits = cpu in ('65c02', '65ce02', 'huc6280')
    if cpu == '6502':
        T.update(table(UNDOC))
    else:
        T.update(table(CMOS))
        br['BRA'] = 0x80
    if cpu in ('65c02', '65816'):
        T.update(table(WDC))
    if cpu == '65ce02':
        T.update(table(CE02))
    if cpu == '65816':
        T.update(table(W816))
    if cpu == 'huc6280':
        T.update(table(HUC))
        br['BSR'] = 0x44
    if cpu != '6502':
        for m, k in GROUP1.items():
            T[(m, '(z)z' if cpu == '65ce02' else '(z)')] = k << 5 | 0x12
            if cpu == '65816':
                for mode, c in {'s': 3, '[z]': 7, 'l': 0xF, '(s)y': 0x13, '[z]y': 0x17, 'lx': 0x1F}.items():
                    T[(m, mode)] = k << 5 | c

    def enc(text, value):
        m, _, a = text.partition(' ')
        m, _, size = m.partition('.')
        if cpu == '65816':
            # explicit sizes of WDC's syntax: < direct page, | absolute, > long
            for c, p in (('<', 'x'), ('|', '?'), ('>', '&')):
                a = a.replace(c + p, p)
            if m in ('MVN', 'MVP') and a == 'x,x':
                return [0x54 if m == 'MVN' else 0x44, ('n8', 1), ('n8', 0)]        # destination bank first
            if m in ('BRL', 'PER') and a == '?' and size != 'B':
                return [0x82 if m == 'BRL' else 0x62, ('r16', 0)]
        if m in br:
            if a == 'x' and size != 'W':
                return [br[m], ('r8', 0)]
            if a == '?' and size != 'B' and cpu == '65ce02':
                return [br[m] + 3, ('r16', 0)]
            return None
        if m == 'BSR' and a == '?' and size != 'B' and cpu == '65ce02':
            return [0x63, ('r16', 0)]
        if m == 'BRK' or (m == 'COP' and cpu == '65816'):
            # the byte after the opcode is skipped on return
            c = 2 if m == 'COP' else 0
            return [c, 0] if (a, size) == ('', '') else [c, ('n8', 0)] if a == 'x' and size != 'W' else None
        if bits and m[:3] in ('BBR', 'BBS', 'RMB', 'SMB') and m[3:] in tuple('01234567'):
            c = int(m[3]) << 4 | (0x80 if m[2] == 'S' or m[0] == 'S' else 0)
            if m[0] == 'B':
                return [c | 0xF, ('n8', 0), ('r8', 1)] if a == 'x,x' else None
            return [c | 7, ('n8', 0)] if a == 'x' and size != 'W' else None
        if cpu == 'huc6280':
            if m in ('TII', 'TDD', 'TIN', 'TIA', 'TAI') and a == '?,?,?':
                return [dict(TII=0x73, TDD=0xC3, TIN=0xD3, TIA=0xE3, TAI=0xF3)[m], ('w', 0), ('w', 1), ('w', 2)]
            if m == 'TST':
                x = {'#x,x': (0x83, 'n8', 'B'), '#x,x,X': (0xA3, 'n8', 'B'), '#x,?': (0x93, 'w', 'W'), '#x,?,X': (0xB3, 'w', 'W')}.get(a)
                return [x[0], ('n8', 0), (x[1], 1)] if x and size in ('', x[2]) else None
        mode = MODE.get(a)
        if cpu == '65816' and mode == '##':
            if (m, '#') in T and size == 'W' and (m in GROUP1 or m in ('BIT', 'CPX', 'CPY', 'LDX', 'LDY')):
                return [T[(m, '#')], ('w', 0)]
            return None
        if mode is None or (m, mode) not in T:
            return None
        c = T[(m, mode)]
        if mode in ('-', 'A'):
            return [c] if not size else None
        w = SIZE[mode]
        if size and size != w and (m, size) != ('TAS', 'B'):
            return None
        if cpu == '65816' and mode == '#' and not size and m not in ('REP', 'SEP'):
            return [c, ('nx' if m[2] in 'XY' else 'nm', 0)]     # as wide as the index registers / the accumulator
        return [c, (ITEM[w], 0)]
    return enc
