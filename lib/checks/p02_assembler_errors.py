"""P02: an error reported by an assembler always ends in a non-zero exit status."""
import ir, failcheck


def run():
    progs = [p for p in ir.programs() if p.startswith('wla-')]
    return failcheck.run('P02', 'An error reported by the assembler always makes the assembly fail', progs,
                         {p: 600 for p in progs}, {p: 800 for p in progs},
                         'Every error report (print_error() of a kind other than warning, print_text() marked as an error) of all 16 assemblers and every call that returns the failing value of a reported error, '
                         'up to main(): a conditional constant propagation behind each of them collects the outcomes of the function; all must be failing.',
                         ['-c (continue after an error) is not given: g_continue_parsing_after_an_error and g_allow_duplicate_labels_and_definitions are 0',
                          'messages of lib/data/soft_messages.txt are notices by design',
                          'call sites of lib/data/fail_exempt.txt judge the callee by something other than its result (reason given per site)',
                          'calls through function pointers are not followed'])
