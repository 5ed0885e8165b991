"""P03: an error reported by the linker (or wlab) always ends in a non-zero exit status."""
import failcheck


def run():
    return failcheck.run('P03', 'An error reported by the linker always makes the link fail', ['wlalink', 'wlab'],
                         {'wlalink': 200, 'wlab': 5}, {'wlalink': 180},
                         'Every error report (print_text() marked as an error; for wlab fprintf(stderr)) and every call that returns the failing value of a reported error, up to main(): a conditional constant '
                         'propagation behind each of them collects the outcomes of the function; all must be failing.',
                         ['messages of lib/data/soft_messages.txt are notices by design',
                          'call sites of lib/data/fail_exempt.txt judge the callee by something other than its result (reason given per site)',
                          'calls through function pointers are not followed'])
