"""Machine code of the supported processors, written down from their instruction set references and independent of WLA's tables.

encode(cpu, text, value) -> list of items for an instruction text as it stands in a table (operands are placeholders: x s ? & ...), or None when the
text is not an instruction known here.  Items: a byte, or (kind, k) for operand k (in source order):
n8   a byte; s8 a signed byte; d8 a signed displacement from a register; r8 / r16 a distance from the end of the operand; w a 16-bit word in the byte order of the CPU;
wb   a 16-bit word, high byte first; t a 24-bit value; other kinds are described with the processor."""
import importlib

CPU = {'gb': 'z80', 'z80': 'z80', 'z80n': 'z80', '8080': 'i8080', '8008': 'i8080', '6502': 'm65', '65c02': 'm65', '65ce02': 'm65', '65816': 'm65', 'huc6280': 'm65',
       'spc700': 'spc', '6800': 'm68', '6801': 'm68', '6809': 'm6809', 'superfx': 'superfx'}


def encoder(cpu):
    return importlib.import_module('isa.' + CPU[cpu]).encoder(cpu)
