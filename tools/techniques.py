"""Per property: the deciding technique, and what the level rests on."""
_R = ('Held on the executions observed (measured counts are in the evidence file); declarations, values and histories the '
      'generators do not reach are not claimed. ')
TECH = {
 'C01': ('runtime monitoring: construction of generated classes observed at the API; identity of every stored object and the log of factory calls against a declarative model', _R + 'Trusts the 40-line construction model in the check.'),
 'C02': ('runtime monitoring: sentinel objects whose every special method is instrumented; identity oracle and empty-log invariant', _R + 'An access that bypasses all special methods (id, type) is invisible and allowed.'),
 'C03': ('runtime monitoring: invariant monitor, an independent conformance predicate evaluated on every value found in a record', _R + 'Trusts lib/model.py conforms(). Validators that break the type, and unrepeatable containers, are excluded by the statement.'),
 'C04': ('runtime monitoring: acceptance and identity oracle over generated conforming values, coercers instrumented to prove they stay silent', _R + 'Trusts lib/model.py conforms().'),
 'C05': ('runtime monitoring: independent style resolution per nesting level against observed accept/reject of probe values', _R + 'Trusts the style resolution of lib/model.py.'),
 'C06': ('runtime monitoring: recorded (coercer, received object) event log against the call protocol of a reference interpreter', _R + 'Trusts the protocol in lib/model.py.'),
 'C07': ('runtime monitoring: recorded (validator, received object) event log, warnings and log records against a reference protocol', _R + 'Known finding: validators inside hollow unions / hollow elements never run (reported, not repaired).'),
 'C08': ('runtime monitoring: differential oracle, each element processed by the container is compared with the element processed alone by a one-field record; input snapshots', _R + 'Element processing is made deterministic by the harness.'),
 'C09': ('runtime monitoring: differential oracle over per-alternative reference results, and metamorphic comparison of permuted unions', _R + 'Ties between equal but not identical results are not judged.'),
 'C10': ('runtime monitoring: reference oracle in exact arithmetic / re.fullmatch over boundary-biased inputs, log of comparisons for unordered values', _R + 'Bounds and values of Clamp and Cyclic with one consistent total order.'),
 'C11': ('runtime monitoring: differential oracle against the documented plain call and exact rational arithmetic, with a log of constructor calls', _R + 'Whole-number coercion is allowed the 1e-9 float noise it documents.'),
 'C12': ('runtime monitoring: snapshot invariant over all observables after each attempted mutation in random histories', _R + 'object.__setattr__ and __dict__ edits are outside the quantifier.'),
 'C13': ('runtime monitoring: algebraic-law monitors (equivalence, hash agreement, set/dict membership against linear scan) and a field-wise oracle over all pairs', _R + 'Values whose own equality is an equivalence that agrees with their hashes.'),
 'C14': ('runtime monitoring: differential oracle against value tuples for all four operators, sorting and refusals', _R + 'Trusts tuple comparison of CPython.'),
 'C15': ('runtime monitoring: reference model of the exported mapping (keys, order, identity) for direct, bound and textual exports', _R + 'Trusts the reference exporter in the check, and json for text.'),
 'C16': ('runtime monitoring: reference interpreter of selections, applied side by side with the library on dicts, exporters and factories', _R + 'Trusts lib/selref.py.'),
 'C17': ('runtime monitoring: deep identity snapshots of every input around each operation; re-evaluation of every bound object between derivations', _R + 'Snapshots cover all mappings, options, objects and records the harness passes in.'),
 'C18': ('runtime monitoring: round-trip oracle over every export path and its inverse', _R + 'Values that the format itself can represent.'),
 'C19': ('runtime monitoring: round-trip oracle across interpreter processes with different hash seeds, offline comparison of their reports', _R + 'Pickle protocols 2-5.'),
 'C20': ('runtime monitoring: graph-isomorphism monitor between original and copy, then mutation of either side and re-inspection', _R + 'Sharing of objects that are immutable through and through is allowed.'),
 'C21': ('runtime monitoring: event log of parser calls and outcomes against an acceptance table', _R + 'Trusts the table built by the harness.'),
 'C22': ('runtime monitoring: outcomes and call logs against the full decision table of the single-argument rules', _R + 'Every row of the table is driven in each run.'),
 'C23': ('runtime monitoring with fault injection: errors of all classes raised at every level of processing; type, message, cause, hooks and recovery judged', _R + 'Reads the message only for the field name.'),
 'C24': ('runtime monitoring: event log of hook calls with snapshots of the data, exactly-once checker', _R + 'Covers every construction path the library offers.'),
 'C25': ('runtime monitoring: histories of class creations with re-probing of all classes against a declarative model after each step', _R + 'Trusts the model of class settings in the check.'),
 'C26': ('runtime monitoring: legality model against observed acceptance/refusal of generated declarations, each offence paired with its corrected twin', _R + 'Declarations on which the documentation says nothing are not judged.'),
 'C27': ('runtime monitoring: history independence, each operation of a long history compared with the same operation on a fresh class', _R + 'Callbacks of the harness are themselves deterministic.'),
 'C28': ('runtime monitoring: deterministic-schedule stress, a cooperative scheduler injects thread switches at executed lines and bytecode instructions (sys.monitoring); outcomes compared with solitary execution', _R + 'Counts distinct switch traces; GIL builds only. Native race detectors have nothing to instrument in a pure-Python library.'),
 'C29': ('runtime monitoring: call log of stand-in back-ends against a reference of which function is called with which objects', _R + 'Stand-ins are whole modules, namespaces, instances and classes.'),
 'C30': ('runtime monitoring: trace equality, generated programs run in separate interpreters with different hash seeds, whole traces compared offline', _R + '3 to 8 hash seeds per program.'),
 'C31': ('runtime monitoring: differential oracle, every import path against keyword construction, outcome and callback log', _R + 'Trusts keyword construction, which C01-C09 decide.'),
 'C32': ('runtime monitoring: liveness monitor with weak references and collector, allocated-block growth in loops', _R + 'An unreachable but uncollected object is collected first; references held by the interpreter are warmed up.'),
 'C33': ('runtime monitoring: model-based histories, all observables of all live instances compared with a model after each step', _R + 'Trusts the dictionary model of a mutable record.'),
 'C34': ('runtime monitoring: differential oracle between twin classes, tokens declared and tokens added in pre_bind', _R + 'Trusts annotated declaration, which C05-C09 decide.'),
 'C35': ('runtime monitoring: event log of user exporters and factories (arguments by identity, owner, result, error) against a reference', _R + 'Trusts the reference of how options and selections combine, shared with C15/C16.'),
 'C36': ('runtime monitoring: event log of token binding (which token, which place, which type) and of callbacks against a reference', _R + 'Relies only on the documented token base classes.'),
}
