DEFAULT_NOTE = ('Every control-flow path of the listed entry points is analysed from the source up to a stated loop unrolling and collection size, '
                'with every library call that can fail failing at each of its call sites. Library and operating system behaviour is taken from models.')
TECHS.update({
    'C22': 'system call argument and result provenance',
    'C23': 'system call argument and result provenance',
})
TECHS.update({
    'C05': 'typestate of deleted rows and the reclaim queue',
    'C07': 'SQL schema and trigger analysis',
    'C15': 'error-discard analysis',
    'C16': 'panic reachability and result provenance of extern "C" functions',
    'C17': 'ownership typestate of raw pointers across the C interface',
    'C18': 'drop-order and borrow-lifetime analysis',
    'C19': 'lock-order graph and blocking-while-locked analysis',
    'C21': 'typestate of values waiting to be reclaimed',
    'C24': 'error-cause analysis of clone failures',
    'C28': 'provenance and linear bounds of what reads touch',
    'C29': 'provenance of file names and ids',
})
NOTE.update({
    'C18': DEFAULT_NOTE + ' Owners and borrowers are found by type (StableDeref containers, guards, connections) from the drop glue in the compiled MIR.',
    'C19': DEFAULT_NOTE + ' Lock classes are types of the protected data; locks of a private object created on the path do not count; whole-file flock mode is out.',
    'C21': DEFAULT_NOTE + ' The reclaimer is followed for two received messages and three turns of its loops.',
    'C29': DEFAULT_NOTE + ' One known finding: writers never recognise an existing values file (see known_findings.txt).',
})
TECHS.update({'C34': 'partition of region sequences by linear bounds'})
NOTE.update({
    'C34': DEFAULT_NOTE + ' What one lseek answers is a model of the documented SEEK_HOLE and SEEK_DATA; the iterators are followed for a bounded number of regions.',
})
