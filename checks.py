"""What check.py and manifest.py know about each property."""

TRUST = ['the Go toolchain in this sandbox (go 1.23, amd64, linux)', 'the reference oracle in the harness package']

# the race build checks unsafe pointer conversions too; the goroutine id code does ones it flags by design
NOPTR = ['-gcflags=all=-d=checkptr=0']

CHECKS = {
    'C01': {'pkg': 'jsonchk', 'technique': 'property-based differential testing against strconv, exhaustive for 8 and 16 bit'},
    'C02': {'pkg': 'jsonchk', 'technique': 'property-based round trip through encoding/json and a reference escaper'},
    'C03': {'pkg': 'jsonchk', 'technique': 'property-based differential testing against strconv/big with an explicit error bound'},
    'C04': {'pkg': 'jsonchk', 'technique': 'generated types and values against a reflection-based reference document'},
    'C05': {'pkg': 'msgchk', 'technique': 'stateful property-based testing of formatting histories against a reference renderer'},
    'C06': {'pkg': 'msgchk', 'technique': 'grammar-aware fuzzing of format strings against a reference parser'},
    'C07': {'pkg': 'parsechk', 'technique': 'stateful model-based testing of sources under generated reader portioning'},
    'C08': {'pkg': 'parsechk', 'technique': 'property-based differential testing against math/big'},
    'C09': {'pkg': 'parsechk', 'technique': 'property-based differential testing against a rune/byte scan'},
    'C10': {'pkg': 'parsechk', 'technique': 'generated expression grammars and texts against a reference tree builder'},
    'C11': {'pkg': 'reflchk', 'technique': 'generated types and values, differential testing against reflect'},
    'C12': {'pkg': 'reflchk', 'mult': 5, 'technique': 'stateful model-based testing of generated map types against reflect maps'},
    'C13': {'pkg': 'reflchk', 'mult': 5, 'technique': 'stateful model-based testing of generated slice types against reflect slices'},
    'C14': {'pkg': 'concchk', 'race': True, 'build_flags': NOPTR, 'technique': 'stateful model-based testing of goroutine histories under the race detector'},
    'C15': {'pkg': 'concchk', 'technique': 'generated goroutine life cycles against the ids printed by the runtime'},
    'C16': {'pkg': 'concchk', 'race': True, 'build_flags': NOPTR, 'technique': 'generated job trees, panics and stops against an execution-count model, under the race detector'},
    'C17': {'pkg': 'sinkchk', 'race': True, 'build_flags': NOPTR, 'technique': 'generated producer, consumer and fault schedules against a delivery model, under the race detector'},
    'C18': {'pkg': 'logchk', 'technique': 'stateful model-based testing of configuration and log call histories'},
    'C19': {'pkg': 'logchk', 'race': True, 'build_flags': NOPTR, 'technique': 'stateful and concurrent property-based testing against reference renderings, under the race detector'},
    'C20': {'pkg': 'logchk', 'technique': 'fault injection into every component, hostile values and goroutine life times, generated'},
    'C21': {'pkg': 'logchk', 'technique': 'generated events against reference renderings of each text format'},
    'C22': {'pkg': 'logchk', 'technique': 'generated events, lines decoded by encoding/json and compared member by member'},
    'C23': {'pkg': 'logchk', 'race': True, 'build_flags': NOPTR, 'technique': 'generated concurrent histories over pausing and failing writers, under the race detector'},
    'C24': {'pkg': 'sinkchk', 'race': True, 'build_flags': NOPTR, 'technique': 'stateful and concurrent counting histories against a conservation model, under the race detector'},
    'C25': {'pkg': 'ljchk', 'race': True, 'technique': 'stateful model-based testing of write, rotate and reopen histories with injected file system faults'},
    'C26': {'pkg': 'ljchk', 'technique': 'generated directories and limits against a reference retention rule'},
    'C27': {'pkg': 'ljchk', 'technique': 'stateful model-based testing of rotation histories with compression, contents by round trip'},
    'C28': {'pkg': 'sinkchk', 'technique': 'generated resource lists and failures against a reference model'},
    'C29': {'pkg': 'logchk', 'technique': 'stateful model-based testing of context trees'},
    'C32': {'pkg': 'cachechk', 'race': True, 'build_flags': NOPTR, 'technique': 'generated first-use races over fresh caches against a single-goroutine oracle, under the race detector'},
}

NOT_APPLICABLE = {}
