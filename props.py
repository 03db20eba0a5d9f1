#!/usr/bin/env python3
"""Source of properties.jsonl."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
                    'observe_at': list(observe),
                    'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                    'hook_needed': None},
    })


J = 'msgfmt/jsonfmt/'
prop('C01', 'Integers are written as their exact canonical decimal text',
     'Every value of every integer type (signed, unsigned, 8 to 64 bit, int, uint, uintptr) is encoded as JSON, and written by the exported integer writers, as exactly its canonical decimal text, appended after whatever the buffer already held.',
     ['inputs'], 'all 8..64 bit integers x all buffers they are appended to',
     'the tests encode a handful of numbers per type; digit-group boundaries and the top of the range are not among them',
     [J + 'encoder_int.go'], [('three-digit table and group-wise writers', J + 'encoder_int.go: WriteInt8..WriteUint64')],
     ['jsonfmt.MarshalToString', 'jsonfmt.WriteInt8 .. WriteUint64'])
prop('C02', 'Strings and byte slices become valid JSON strings that lose nothing',
     'Any Go string is encoded as one valid JSON string that decodes to the same text (bytes that are not UTF-8 pass through unchanged), with quotes, backslashes and control characters escaped. A []byte is encoded as a JSON string in which printable ASCII stays readable and any other byte is spelled so that the original bytes can be told exactly.',
     ['inputs'], 'all byte sequences, as string and as []byte, at all positions',
     'the tests encode a few short ASCII strings; the escape path depends on where in the text the special byte stands',
     [J + 'encoder_str.go', J + 'encoder_bytes.go'], [('fast path / slow path with a safe set', J + 'encoder_str.go, encoder_bytes.go')],
     ['jsonfmt.MarshalToString', 'jsonfmt.WriteString', 'jsonfmt.WriteBytes'])
prop('C03', 'Floats become JSON numbers close to the value, non-finite ones null',
     'A finite float32 or float64 is encoded as a valid JSON number: exactly round-tripping outside of the range of the fast path, and within the documented six decimals (error below one millionth) inside of it. NaN and the infinities are encoded as null.',
     ['inputs'], 'all float32 and float64 bit patterns',
     'the tests encode a few round numbers; rounding carries, leading zeros of the fraction and the limit of the fast path are not reached',
     [J + 'encoder_float.go'], [('lossy fixed point writer and strconv fallback', J + 'encoder_float.go')],
     ['jsonfmt.MarshalToString'])
prop('C04', 'JSON encoding of any Go value says what the value says',
     'For every Go type and value without cycles in the data, the JSON encoder appends one valid JSON document that mirrors the value: struct fields in order under their json tag or name (unexported, "-" tagged, channel and func fields left out; embedded ones nested under the type name; omitempty is not applied), slices and arrays in order, every map entry exactly once with its key as a string, nil pointers, maps and interfaces as null, errors as their message, json.Marshalers as their own output without its white space (or a string that says what is wrong, if that is an error or no valid JSON), interfaces as their content; a type that an extension of the config takes is encoded by it wherever it occurs. The document has no line breaks. The result depends only on the value and the config, not on what was encoded before.',
     ['inputs', 'programs', 'configurations'], 'all acyclic Go types and values, including recursive, embedded, anonymous and pointer-shaped ones, in any order of first use, with and without IncludesUnexported',
     'the tests fix about twenty types; memory layout cases (one-pointer structs and arrays, nested anonymous types, values in interfaces) form combinations that tests only sample',
     [J + 'encoder.go', J + 'encoder_stuct.go', J + 'encoder_map.go', J + 'encoder_slice.go', J + 'encoder_array.go', J + 'encoder_pointer.go', J + 'encoder_dynamic.go', J + 'encoder_error.go', J + 'encoder_json_marshaler.go', J + 'encoder_recursive.go'],
     [('one encoder per type, found by kind and cached', J + 'encoder.go: EncoderOf, encoderOfType'), ('pointer-shaped single field handling', J + 'encoder.go: EncoderOf, encoder_stuct.go')],
     ['jsonfmt.MarshalToString', 'jsonfmt.Config.Froze().EncoderOf / EncoderOfObject'])
M = 'msgfmt/'
prop('C05', 'Message formatting equals the template semantics, whatever was done before',
     'Formatting a template replaces each {name} by the text of the first argument with that key (strings verbatim, Stringers by String, byte slices escaped, everything else as JSON), {name, goTime, layout} by the formatted time, {name, func, args} by the registered format, and keeps everything else as it is; values are printed by Fprintln the same way. The output depends only on the template and the arguments: not on argument types, order or values with which the same template was used before, and not on concurrent use.',
     ['inputs', 'histories', 'schedules'], 'all well-formed templates x all argument lists x all earlier and concurrent uses of the same template',
     'the tests format each template once with one type of argument; compiled templates are cached and reused, so failures need a second use with other arguments',
     [M + 'msgfmt.go', M + 'formatter.go', M + 'formatter_sampled.go', M + 'parse.go', M + 'custom.go', M + 'formatter_bytes.go', M + 'formatter_json.go'],
     [('formatter compiled per template, guarded by the sample it was compiled for', M + 'formatter_sampled.go'), ('template lexer', M + 'parse.go')],
     ['msgfmt.Sprintf', 'msgfmt.Printf', 'msgfmt.Fprintf', 'msgfmt.Println', 'msgfmt.Fprintln', 'msgfmt.FormatterOf(..).Format'],
     [('formatterCache', 'last compiled formatter of each template', M + 'msgfmt.go')])
prop('C06', 'Any string works as a message template without panic or hang',
     'Formatting with any string as template and any arguments terminates and does not panic: a well-formed template gives its rendering, and one that is malformed (unclosed brace, unexpected character, unknown format function, failing format function) or names a missing argument gives an output marked as invalid format that still shows the arguments.',
     ['inputs'], 'all strings x all argument lists',
     'the tests only use well-formed templates',
     [M + 'parse.go', M + 'formatter.go', M + 'formatter_invalid.go', M + 'custom.go', 'parse/parse.go', 'parse/utf8.go'],
     [('errors reported on the source end up in the invalid formatter', M + 'formatter.go: compile')],
     ['msgfmt.Sprintf'])
prop('C07', 'A parse source yields exactly its input, however the reader delivers it',
     'Reading a source byte by byte, by buffers, by runes or by single expected bytes, with any mix of peeking (ahead of the buffered input, too) and consuming, yields exactly the bytes of the input in order and then the error the reader ended with. This does not depend on the buffer size or on how the reader portions the input, including empty reads (which give io.ErrNoProgress when there is no end of them) and data returned together with the final error.',
     ['inputs', 'histories', 'fault_sequences'], 'all inputs x buffer sizes x reader behaviours (short, empty and failing reads) x operation sequences',
     'the tests read short strings with one or two fixed buffer sizes from a well-behaved reader',
     ['parse/parse.go', 'parse/utf8.go'], [('refill, look-ahead list and deferred read error', 'parse/parse.go: Source')],
     ['parse.Source'])
prop('C08', 'Integer readers return exactly the decimal value in range, or an error',
     'Reading an integer of any supported type from a source takes the longest run of decimal digits found there (after one minus sign for the signed types), returns its value (zero when there are no digits) and leaves the source right after it; when the value does not fit the type, an error is reported instead of a wrong number. This does not depend on how the input is portioned.',
     ['inputs'], 'all texts around the limits of each integer type x all portionings',
     'the tests read about ten numbers; overflow detection depends on the exact value near the wrap-around points',
     ['parse/read/int.go'], [('overflow checks per digit', 'parse/read/int.go')], ['read.Int', 'read.Int32', 'read.Int64', 'read.Uint64 ...'])
prop('C09', 'Read and skip functions take exactly the longest matching run',
     'Each function that reads or skips bytes or runes (any bytes except given ones, runes within and outside of unicode ranges, white space) takes exactly the longest run from the current position that satisfies its condition, returns it unchanged and leaves the source at the first byte after it, for any input and portioning; it never reads past the end and never loops.',
     ['inputs'], 'all inputs, conditions and portionings',
     'the tests use short ASCII strings in one buffer; characters that straddle buffers and runs that end with the input are not sampled',
     ['parse/read/any.go', 'parse/read/range.go', 'parse/skip/space.go', 'parse/skip/range.go', 'parse/utf8.go'],
     [('peek/consume loops', 'parse/read, parse/skip')], ['read.AnyExcept1 ...', 'read.UnicodeRanges', 'skip.UnicodeSpace ...'])
prop('C10', 'Operator precedence parsing follows the declared precedences, errors surface',
     'Given a lexer of prefix and infix tokens, parsing builds the tree in which operators of higher precedence bind tighter and operators of equal precedence group to the left (to the right when the right side is parsed with precedence minus one); an input with a missing operand, an unknown token or an error reported by a token yields an error and never a silently wrong result, and the error reported first is the one the caller gets (that the input is over does not replace it).',
     ['inputs', 'programs'], 'all operator tables x all expressions x portionings',
     'the tests evaluate about ten arithmetic expressions',
     ['parse/parse.go'], [('Pratt loop', 'parse/parse.go: Parse')], ['parse.Parse', 'parse.String'])
R = 'reflect2/'
prop('C11', 'reflect2 struct, array, pointer and interface access equals reflect',
     'For every type and value, what the alternative reflection API reports about a type and what its get, set, index, indirect, copy and nil-check operations do to values, through typed and through untyped (unsafe pointer) access, is what the standard reflect package does, in the unsafe and in the safe configuration; nothing outside of the addressed field or element changes. Typed operations of the unsafe configuration refuse (by panic) arguments of another type. Looking up a field that does not exist gives nil or a panic, indexes out of range are up to the caller.',
     ['inputs', 'programs', 'configurations'], 'all types (nested, embedded, promoted, pointer-shaped) x values x fields and indexes x both configurations',
     'the tests exercise fixed small types; memory offsets and the pointer-shaped interface layout depend on the exact type',
     [R + 'unsafe_struct.go', R + 'unsafe_field.go', R + 'unsafe_array.go', R + 'unsafe_ptr.go', R + 'unsafe_eface.go', R + 'unsafe_iface.go', R + 'unsafe_type.go', R + 'safe_type.go', R + 'safe_struct.go', R + 'safe_field.go', R + 'reflect2.go'],
     [('offset arithmetic and interface packing', R + 'unsafe_*.go'), ('type wrapping', R + 'reflect2.go: wrapType')],
     ['reflect2.ConfigSafe / ConfigUnsafe .TypeOf(..) and the StructType, ArrayType, PtrType, InterfaceType operations'])
prop('C12', 'reflect2 map operations and iteration equal Go maps',
     'For every map type, creating, setting, overwriting, looking up (present or missing) and iterating through the alternative reflection API, typed and untyped, safe and unsafe, gives what the same operations on a Go map give; an iteration over an unchanged map visits every entry exactly once with its own key and value. A typed operation of the unsafe configuration refuses (panics) a map, key or element of another type and leaves everything as it was.',
     ['histories', 'programs', 'configurations'], 'all key and element types x all operation sequences x both configurations',
     'the tests set one or two entries for three key types; growth, large keys or elements and pointer-shaped types are not sampled',
     [R + 'unsafe_map.go', R + 'safe_map.go', R + 'unsafe_link.go', R + 'go_above_118.go'],
     [('runtime map functions by linkname', R + 'unsafe_link.go, unsafe_map.go')], ['MapType operations'])
prop('C13', 'reflect2 slice operations equal Go slices',
     'For every element type, making, indexing, setting, growing, appending, nil-making and measuring slices through the alternative reflection API, typed and untyped, safe and unsafe, gives what the same operations on a Go slice give, element by element and with at least the requested capacity; earlier elements and other slices on the same backing array are touched only as Go itself would. A typed operation of the unsafe configuration refuses (panics) a slice or element of another type and leaves everything as it was.',
     ['histories', 'programs', 'configurations'], 'all element types x all operation sequences x both configurations',
     'the tests append once or twice to slices of three element types',
     [R + 'unsafe_slice.go', R + 'safe_slice.go'], [('slice header access', R + 'unsafe_slice.go')], ['SliceType operations'])
prop('C14', 'Goroutine-local storage stays with its goroutine',
     'A value set in goroutine-local storage is seen by the goroutine that set it and by nobody else, until it is overwritten or the storage of that goroutine is removed; a function wrapped to inherit and run in a goroutine of its own sees a copy of what its creator had when wrapping (values that offer Copy are copied by it), one wrapped with empty storage sees nothing, changes on either side stay there (also when several goroutines run the same wrapped function: each has its own copy), and afterwards the storage of the finished goroutine is gone. Without storage, getting gives nil and setting panics instead of storing somewhere else.',
     ['schedules', 'histories'], 'all interleavings of goroutines that set, get, inherit, reset and end',
     'the tests use one or two goroutines in a fixed order',
     ['gls/gls.go', 'gls/goid.go'], [('sharded map from goroutine id to storage', 'gls/gls.go')], ['gls.Set, Get, WithGls, WithEmptyGls, ResetGls, DeleteGls, IsGlsEnabled'],
     [('globalSlots', 'goroutine id -> its storage', 'gls/gls.go')])
prop('C15', 'The goroutine id is constant in a goroutine and unique among live ones',
     'The id of a goroutine is the same on every call within it, across stack growth, blocking, locking to a thread and garbage collections, equals the id the runtime prints in stack traces, and no two goroutines alive at the same time share one.',
     ['schedules'], 'all goroutine counts, stack depths and schedules', 'the test prints one id',
     ['gls/goid.go', 'gls/goid_amd64.s'], [('offset of goid in the runtime structure', 'gls/goid.go')], ['gls.GoID'])
prop('C16', 'Executors run every job once, contain panics and stop only when asked',
     'Every function handed to an unbounded executor runs exactly once, concurrently, with a context that is not cancelled before stop; a panic in one, whatever it panics with, reaches the panic handler with the job ending there, never the process or other jobs, also when the handler panics itself. The hooks that report panics and the wait may start more jobs on the same executor. Stop cancels the context of all jobs, and stop-and-wait returns only after all jobs have ended, or when its own context is done.',
     ['schedules', 'fault_sequences'], 'all numbers, durations, nesting and panics of jobs x all moments of stopping',
     'there is no test of the executor',
     ['concurrent/executor.go', 'concurrent/unbounded_executor.go'], [('active goroutine count', 'concurrent/unbounded_executor.go')],
     ['concurrent.NewUnboundedExecutor().Go / Stop / StopAndWait / StopAndWaitForever', 'concurrent.LogPanic'])
prop('C17', 'The async writer delivers each message whole, once, in order, before Close',
     'Messages written to the asynchronous writer reach the underlying writer whole, unmixed, at most once and in the order of each producer, and nothing is dropped while the queue has room; the caller may reuse its buffer right after the write. A write to a full queue waits when the queue is configured to block; otherwise it returns at once, and the message is dropped and handed to the configured callback, or without one reported to the error log of the logger itself on the first and then every thousandth drop with the number so far. Close delivers what was accepted before it, as far as the underlying writer takes it within a second, then closes the underlying writer; failing or panicking underlying writes do not stop later ones. No write waits forever because the writer was closed, and every write after Close has returned gives an error.',
     ['schedules', 'histories', 'fault_sequences'], 'all interleavings of producers, consumer speed, queue lengths, write failures and close',
     'the tests write one message',
     ['countlog/output/async/async.go'], [('channel, copy of the buffer, drain on close', 'countlog/output/async')], ['async.NewAsyncWriter(..).Write / Start / Close'])
L = 'countlog/'
prop('C18', 'Which events are written depends only on level and outcome',
     'A plain event is written if and only if its level is at least the configured minimum (warn, error and fatal are never filtered), and a call event (or a counted event, one with an agg property) if and only if its level also reaches the minimum call level, which setting the minimum level puts half a level higher. The level of a call is that of its function, or warn when its error is not nil (error for LogAccess); a failed call is not subject to the plain minimum. The call functions return the formatted message followed by the cause as error, and nil when the cause is nil. A stats collector changes none of this.',
     ['inputs', 'histories', 'configurations'], 'all levels, thresholds, errors and sequences of configuration changes and events',
     'the tests log one event per function at the default level and do not look at the output',
     [L + 'countlog.go', L + 'root.go', L + 'context.go', L + 'spi/spi.go', L + 'output/writer.go'],
     [('level comparison in each log function', L + 'countlog.go'), ('call filter', L + 'output/writer.go, ' + L + 'root.go')],
     ['countlog.Trace .. Fatal, Log, TraceCall .. FatalCall, LogAccess, SetMinLevel, EventWriter output'])
prop('C19', 'Each logged event is written with its own properties and message',
     'Every event that is written carries the properties, error and message of that very call: each key with its own value in the order given (the human readable format shows the context properties first), also when the same event name is used with other keys, value types, numbers of properties or from other places, and when several goroutines log at once.',
     ['histories', 'schedules', 'inputs'], 'all sequences of events that share names but not shapes, from any number of goroutines',
     'handlers and formatters are built on the first use of an event name; the tests use each name once',
     [L + 'root.go', L + 'output/writer.go', L + 'output/shape.go', L + 'output/format.go', L + 'context.go'],
     [('handler cache per event and formatter per shape', L + 'root.go, ' + L + 'output/writer.go')],
     ['any EventSink / EventWriter'])
prop('C20', 'Logging never takes the application down',
     'No log call panics, hangs or corrupts memory in the application: not with any event name, properties of any type (nil, odd counts, non-string keys, values whose methods panic, whatever they panic with), not when the sink, its handler, the formatter or the writer fails or panics, and not when goroutines log right before they exit. Later events are still handled, and the event at which a handler panics for the first time under its name is handled once more (and counted once). What LogPanic is given, and what a job of an executor panics with, becomes a fatal event.',
     ['inputs', 'schedules', 'fault_sequences'], 'all event names, property lists, failing components and goroutine life times',
     'the tests only log well-formed events to working sinks',
     [L + 'root.go', L + 'countlog.go', L + 'output/writer.go', L + 'loglog/loglog.go', L + 'context.go'],
     [('recover around building and calling handlers', L + 'root.go')], ['all log functions'])
prop('C21', 'Text log lines state level, message, error, location and all properties',
     'The compact, human readable and layout-based formats write one line group per event that holds its level, the rendered message, the error if any, the timestamp, the call site and every property with its key, each where the format has them (the human readable format shows the call site from warn up and a timer property as the time elapsed, the layout format has message, timestamp, level, event, func, file and line only; the call site is that of the first event of the name, or, after a panic under that name, of the very event); message text comes from the event name with its "event!" prefix removed and "callee!" shown as a call.',
     ['inputs', 'configurations'], 'all events, levels, errors, property lists and formats',
     'the format tests check one or two fixed events per format',
     [L + 'output/compact', L + 'output/hrf', L + 'output/printf', L + 'output/format.go', L + 'spi/color.go'],
     [('per-event formatter lists', L + 'output/compact, hrf, printf')], ['EventWriter output'])
prop('C22', 'JSON log lines are valid JSON that says what was logged',
     'With the JSON format every written event is one line holding one valid JSON object with the event, every property under its key with its value, the timestamp and the location, for any event names, keys and values.',
     ['inputs'], 'all events, keys and values', 'the test checks one event',
     [L + 'output/json'], [('json formatter', L + 'output/json')], ['EventWriter output'])
prop('C23', 'Each written event is one complete write to the output',
     'An event writer hands each event to its underlying writer in exactly one write that holds the complete event, for any number of goroutines logging at once and after writes that failed; buffers of one event never leak into another, and the output of one goroutine stays in its order.',
     ['schedules', 'fault_sequences'], 'all interleavings of logging goroutines and failing writes', 'the tests log from one goroutine',
     [L + 'output/writer.go', L + 'output/output_file.go'], [('buffer pool', L + 'output/writer.go')], ['the io.Writer of an EventWriter'])
prop('C24', 'Counters conserve every counted event',
     'Counting events through the aggregator loses and invents nothing: over all exported windows, the sum per event and dimension values equals the number of events counted, from any number of goroutines and with exports at any moment; each exported point names the event, the keys and values of the dimension properties in the order of the properties of the event, and the time of the export. Events of one name may differ in which properties they carry and in the values of the dimensions (a value that is no string counts under its fmt.Sprint text): each counts once, under its own dimensions, and no count panics, blocks or is passed on twice. A registered collector gets such an export every second until the executor is stopped. A collector may count events itself, and one that panics for a point costs neither the other points nor later exports.',
     ['schedules', 'histories'], 'all interleavings of counting and exporting, all dimension values',
     'the test counts a few events from one goroutine and exports once',
     [L + 'stats/counter.go', L + 'stats/window.go', L + 'stats/stats.go', L + 'stats/state.go'],
     [('sharded windows', L + 'stats/window.go')], ['stats.NewEventAggregator(..).HandlerOf(..)', 'Window.Export', 'Collector'])
K = L + 'output/lumberjack/'
prop('C25', 'The rolling log file loses, repeats and reorders nothing',
     'Every write accepted by the rolling file logger is found exactly once and whole in the current file or, older first, in its backups, across any number of rotations (by size or on request), re-openings of an existing file and concurrent writers; backups are named by the time of their rotation (UTC unless told otherwise), no file grows beyond the maximum size and a single write beyond it is refused with an error and leaves nothing behind. A new file is started by a write only when that write would not fit, it takes over the mode and owner of the file before it, and a rotation or write that fails (directory out of reach, name too long, disk full) loses nothing that was accepted and does not keep later writes that fit from being accepted.',
     ['histories', 'schedules', 'configurations'], 'all sequences of writes of any size, rotations, closes and re-opens, before backups are removed by the retention settings',
     'the tests of this package do not even compile at this commit',
     [K + 'lumberjack.go'], [('size accounting, rename to a backup name, reopen', K + 'lumberjack.go')], ['the log directory'])
prop('C26', 'Retention removes exactly the expired backups and no other file',
     'After rotation, backups beyond the configured number (newest are kept) or age are removed eventually, all others and the current file are kept, and files that are not backups of this log, however similar their names, are never touched; with no limits configured, or limits that are not reached however large they are, nothing is removed.',
     ['inputs', 'histories', 'configurations'], 'all directory contents, limits and numbers of rotations',
     'the tests of this package do not even compile at this commit',
     [K + 'lumberjack.go'], [('background mill over the parsed backup names', K + 'lumberjack.go: millRunOnce')], ['the log directory'])
prop('C27', 'Compressed backups hold the same bytes',
     'With compression on, every backup that is kept eventually becomes a gzip file whose content is exactly that of the backup it replaces, and no backup is lost or left both ways; compressed files of earlier runs are kept, counted and expire like others, and left-overs of an interrupted compression are replaced. The compressed file takes over mode and owner of the backup; a backup that cannot be compressed stays as it is and keeps no other one from being compressed.',
     ['histories', 'configurations'], 'all contents and rotation sequences', 'the tests of this package do not even compile at this commit',
     [K + 'lumberjack.go'], [('compressLogFile', K + 'lumberjack.go')], ['the log directory'])
prop('C28', 'Closing many resources closes each one and reports every error',
     'Closing a list of resources calls Close exactly once on each of them in order, also after errors of others; the result is nil if and only if all succeeded, and otherwise a MultiError holding exactly the errors that occurred, in order. Every failure is logged as an error event with that error and the properties of the caller, whose slice is left as it was. Merging errors keeps every non-nil error in order and gives nil for none.',
     ['inputs', 'fault_sequences'], 'all lists of resources that succeed or fail, all property lists', 'there is no test',
     ['closer.go'], [('loop with error collection', 'closer.go')], ['plz.Close, plz.CloseAll, plz.MergeErrors'])
prop('C29', 'A logging context keeps its properties, options and parent',
     'A logging context wraps a Go context transparently (values, deadline and cancellation are those of the parent), hands out the same logging context again when wrapped twice, gives every event logged through it its properties in the order they were added (also those added through contexts derived from it), and suppresses trace, debug and info events below the level it was told to, without affecting other contexts.',
     ['histories', 'configurations'], 'all trees of contexts and sequences of adding, suppressing and logging', 'the tests only create contexts',
     [L + 'context.go', L + 'spi/context.go'], [('LogContext carried as a context value', L + 'spi/context.go')], ['countlog.Ctx(..).Trace .. Fatal, Add, SuppressLevelsBelow, Value'])
prop('C32', 'First use of a type, format or event from many goroutines is safe',
     'When several goroutines use a type, template, config or event for the first time at once, each gets the same result as a single goroutine would, without panic, deadlock or incomplete encoders or handlers becoming visible to others.',
     ['schedules'], 'all interleavings of first uses', 'the tests run one goroutine at a time on caches that are warm after the first call',
     [J + 'encoder.go', J + 'encoder_recursive.go', M + 'msgfmt.go', R + 'reflect2.go', L + 'root.go', 'concurrent/go_above_19.go'],
     [('concurrent maps filled after building', J + 'encoder.go, ' + M + 'msgfmt.go, ' + L + 'root.go')],
     ['jsonfmt, msgfmt, reflect2 and countlog entry points'])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
