#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/fauxdoc/'
E = S + 'emitters/'


def P(pid, title, statement, over, text, why, files, mech, state=(),
      observe=()):
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files,
                     'mechanism': [{'name': n, 'where': w} for n, w in mech],
                     'hook_needed': None}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w}
                                 for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    return d


PROPS = [
 P('C01', 'Seeded generation is repeatable and isolated',
   'Two objects (emitters, fields, schemas) built with the same '
   'configuration and the same seed, and asked for the same things in the '
   'same order, give equal data. That stays so in another process, after '
   'other generators have been built, used or have failed in the same '
   'process, and under any interleaving of independent generators, including '
   'several threads that each use their own. Using a seeded generator does '
   'not change the state of the program\'s global random number generator.',
   ['schedules', 'configurations', 'histories', 'fault_sequences'],
   'every configuration of seeded emitters, fields and schemas, every request '
   'history, and every interleaving with other users of the library in the '
   'process (operation by operation and, with threads, line by line)',
   'Tests compare a few fixed outputs of one generator in one process; none '
   'runs two generators interleaved, none compares processes.',
   [S + 'mixins.py', E + 'choice.py', E + 'fixed.py', E + 'text.py',
    E + 'wrappers.py', E + 'fromfields.py', S + 'profile.py',
    S + 'mathtools.py'],
   [('a private random.Random per random part', S + 'mixins.py RandomMixin'),
    ('seeding of children', S + 'mixins.py RandomWithChildrenMixin.seed'),
    ('shuffles made with the emitter\'s own RNG',
     E + 'choice.py Choice._global_shuffle'),
    ('weighted_shuffle with an explicit RNG', S + 'mathtools.py')],
   [('rng', 'private generator state', S + 'mixins.py RandomMixin.rng')],
   ['values returned by calls']),

 P('C02', 'Reset is a full restart',
   'Resetting any seeded emitter, field or schema puts it in the state it had '
   'when first built with its present configuration and seed. From there it '
   'gives exactly what a newly built copy would give, whatever was asked of '
   'it, reconfigured, refused, failed or interrupted before, and however often '
   'it is reset.',
   ['histories', 'configurations', 'fault_sequences', 'crash_points'],
   'every configuration, every history of requests, settings, seedings, '
   'failures of user parts and interruptions at any line before the reset',
   'Tests reset after one or two successful calls on hand-picked emitters; '
   'state left by failures, setters, partial pools and nested parts is not '
   'reached.',
   [S + 'mixins.py', S + 'emitter.py', S + 'profile.py', E + 'choice.py',
    E + 'fixed.py', E + 'text.py', E + 'wrappers.py', E + 'fromfields.py'],
   [('reset chain', S + 'mixins.py RandomMixin.reset, ChildrenMixin.reset'),
    ('new shuffle on reset', E + 'choice.py Choice.reset'),
    ('iterator recreated on reset', E + 'fixed.py Iterative.reset'),
    ('reset of text parts', E + 'text.py Word.reset, Text.reset'),
    ('field previous value and emitters', S + 'profile.py Field.reset'),
    ('schema-wide reset', S + 'profile.py Schema.reset_fields')],
   observe=['values returned after reset']),

 P('C03', 'A seed reaches every random part, exactly when applied',
   'Seeding an emitter, field or schema fixes the output of every random part '
   'inside it, however deep, so that two differently used copies agree from '
   'there on; different seeds give different streams wherever there is enough '
   'randomness. A seed that is only stored takes effect at the next reset and '
   'not before. A part that was never seeded takes fresh entropy each time it '
   'is built or reset, so two unseeded copies do not repeat each other.',
   ['configurations', 'histories', 'inputs'],
   'every nesting of random parts, every seed, every moment of seeding',
   'Tests seed a handful of one- or two-level emitters; depth, moment of '
   'seeding and unseeded entropy (which is not repeatable without a seam) are '
   'not sampled.',
   [S + 'mixins.py', S + 'profile.py', E + 'text.py', E + 'wrappers.py',
    E + 'choice.py', E + 'fromfields.py'],
   [('seed', S + 'mixins.py RandomMixin.seed, RandomWithChildrenMixin.seed'),
    ('schema seed', S + 'profile.py Schema.seed_fields'),
    ('source seed', E + 'fromfields.py BasedOnFields.seed_source')],
   observe=['values returned after seed/reset']),

 P('C04', 'Without replacement, each item once and the counts are true',
   'An emitter that chooses without replacement never gives the same item '
   'twice between restarts, and gives every item that can be chosen before it '
   'refuses. It refuses exactly the requests it cannot fill, uses nothing up '
   'by refusing, and goes on working. At every moment the numbers of unique '
   'values and items it reports are the numbers of distinct values and of '
   'items it can still give.',
   ['histories', 'configurations', 'inputs', 'fault_sequences'],
   'every item collection (equal, unhashable, one-element, large), weighting '
   'and replacement setting, every sequence of requests, refusals, resets, '
   'setting changes, interruptions and rare random draws',
   'Tests draw a fixed list once; weights with ties, zeros and extreme draws, '
   'interleaved requests and refusals, and unhashable items are not sampled.',
   [E + 'choice.py', S + 'mathtools.py', S + 'mixins.py', S + 'emitter.py'],
   [('pool and position', E + 'choice.py Choice._choice_without_replacement'),
    ('weighted shuffle', S + 'mathtools.py weighted_shuffle'),
    ('counts', E + 'choice.py num_unique_values, num_unique_items'),
    ('refusal', S + 'emitter.py raise_uniqueness_violation')],
   [('shuffled pool', 'what is still to be given', E + 'choice.py')],
   ['values and ValueErrors', 'num_unique_values', 'num_unique_items',
    'emits_unique_values']),

 P('C05', 'Replacement-only-after-call gives unique values within each call',
   'An emitter that replaces only after each call gives, in one call for '
   'several values, each item at most once, and starts every call with all '
   'its items available, whatever earlier calls gave, refused or failed on. '
   'It refuses exactly the calls that ask for more than it has, in any '
   'nesting, and its reported counts do not run down.',
   ['histories', 'configurations', 'inputs', 'fault_sequences'],
   'every item collection and weighting, every sequence of single and batch '
   'requests, refusals, resets and interruptions, alone and inside words, '
   'wrappers and fields',
   'Tests make one batch call on a fixed list.',
   [E + 'choice.py', S + 'mathtools.py', E + 'text.py'],
   [('per-call shuffle', E + 'choice.py Choice.emit_many, '
     '_choice_without_replacement'),
    ('refusal', S + 'emitter.py raise_uniqueness_violation')],
   observe=['values and ValueErrors', 'num_unique_values']),

 P('C06', 'Every request is answered in full with permitted values',
   'Asking any emitter for one value gives one value, and asking it for a '
   'number of values gives a list of exactly that many, zero included, each of '
   'which its configuration permits. A request that cannot be answered in full '
   'raises the documented error; it never gives a short, long or invalid '
   'answer and never hangs.',
   ['configurations', 'inputs', 'histories', 'fault_sequences'],
   'every emitter configuration and nesting, every request size from zero to '
   'large, every history, rare random draws included',
   'Tests ask fixed emitters for a few sizes; zero-length words and texts, '
   'nested emitters of mixed kinds and extreme draws are not sampled.',
   [S + 'emitter.py', E + 'choice.py', E + 'fixed.py', E + 'text.py',
    E + 'wrappers.py', E + 'fromfields.py', S + 'dtrange.py'],
   [('single or many', S + 'emitter.py Emitter.__call__'),
    ('emit/emit_many', E + '*.py')],
   observe=['values returned by calls']),

 P('C07', 'A field is its gate, then its repeat, then its data',
   'Each call of a field asks its gate first and gives nothing when closed, '
   'asking no more of the other parts; otherwise it asks its repeat part once '
   'and gives one value when that says None, else a list of exactly that many '
   'values, in the order its data part gave them. The previous value it '
   'reports is what its last call gave, and nothing after a reset; whether it '
   'says it is multi-valued agrees with what it gives.',
   ['configurations', 'histories', 'fault_sequences', 'inputs'],
   'every choice of gate, repeat and data emitters, every history of calls, '
   'resets, part swaps and failures',
   'Tests call fields with a few static emitters; random gates against '
   'cycling repeats, swaps and failures in any part are not combined.',
   [S + 'profile.py'],
   [('call', S + 'profile.py Field.__call__'),
    ('previous', S + 'profile.py Field.previous, Field.reset'),
    ('part swaps', S + 'profile.py Field emitter setters')],
   observe=['values returned', 'previous', 'multi_valued',
            'calls seen by the parts']),

 P('C08', 'A record evaluates each field once and derives from this record',
   'Each record of a schema evaluates every field, hidden ones included, '
   'exactly once and in order, and holds exactly the public fields by name in '
   'order. A field that copies from or is based on earlier fields is derived '
   'from the values those fields have in this very record, also when they are '
   'hidden, empty or repeated. Adding or setting fields, resetting, seeding '
   'and a failed record never make a later record mix in stale values.',
   ['configurations', 'histories', 'fault_sequences'],
   'every schema (fields, hidden or not, derived fields over one or several '
   'sources), every history of records, field changes, resets, seeds and '
   'failures',
   'Tests make a few records of fixed schemas and do not check that derived '
   'values belong to the same record over a history with failures.',
   [S + 'profile.py', E + 'fromfields.py', S + 'group.py'],
   [('record', S + 'profile.py Schema.__call__'),
    ('public and hidden', S + 'profile.py Schema.public_fields, '
     'hidden_fields'),
    ('sources', E + 'fromfields.py SourceFieldGroup, CopyFields.emit, '
     'BasedOnFields.emit')],
   observe=['records', 'calls seen by each field', 'previous']),

 P('C09', 'Cycling emitters give their items in order for ever',
   'A sequential or iterator-based emitter gives exactly the items of its '
   'source, in order, starting again when they run out, with no item lost, '
   'repeated or reordered however the requests are split into single values '
   'and batches. Where set to restart after each call it does so after every '
   'call, failed ones too. A source that fails or runs dry raises an error, '
   'never hangs, and the emitter works again once the source does.',
   ['histories', 'configurations', 'fault_sequences', 'crash_points'],
   'every source, finite, empty, infinite, failing or drying up at any '
   'point, every split into requests, with resets and replaced sources',
   'Tests cycle short fixed lists once or twice and never let a source fail.',
   [E + 'fixed.py'],
   [('endless iterator', E + 'fixed.py Iterative.make_infinite_iter'),
    ('restart after call', E + 'fixed.py emit, emit_many'),
    ('source checks', E + 'fixed.py check_iter_factory, '
     'check_seq_iter_factory')],
   [('iterator', 'where in the pass the emitter is', E + 'fixed.py')],
   ['values and errors']),

 P('C10', 'Failures of user parts surface unchanged and do not stick',
   'An exception raised by anything the user supplied (a function, an '
   'iterator, an own emitter, a random draw) -- other than StopIteration, '
   'which the language itself takes for the end of a loop -- comes out of the call that met '
   'it as the same exception, never swallowed, replaced or turned into data. '
   'After a following reset the object behaves as if the failure had never '
   'happened.',
   ['fault_sequences', 'crash_points', 'configurations', 'histories'],
   'every configuration with user parts, every kind of exception at every '
   'call of every part, and interruptions at every line of the library',
   'Tests have almost no failing user parts; which call fails at which depth '
   'is what a fault injector must choose.',
   [S + 'group.py', S + 'mixins.py', S + 'profile.py', E + 'wrappers.py',
    E + 'fromfields.py', E + 'fixed.py', E + 'text.py', E + 'choice.py'],
   [('group calls', S + 'group.py GroupMixin.do_method, setattr'),
    ('wrapper calls', E + 'wrappers.py BoundWrapper.__call__, '
     'try_mock_call'),
    ('reset chain', S + 'mixins.py')],
   observe=['exceptions', 'values after the next reset']),

 P('C11', 'A reconfiguration takes effect whole or not at all',
   'Changing an emitter, field or schema through its public settings '
   '(weights, replacement, value, source iterator, wrapper function, action, '
   'seed, fields, parts) either is accepted, and then it behaves like one '
   'built with the new setting, or is rejected with an error, and then it '
   'goes on exactly as if nothing had been tried.',
   ['histories', 'inputs', 'configurations', 'fault_sequences'],
   'every public setting, valid and invalid new values, at every moment of a '
   'history',
   'Tests check that some bad values raise and some good ones are stored; '
   'that behaviour afterwards is wholly old or wholly new, at any moment, '
   'needs a twin to compare with.',
   [E + 'choice.py', E + 'fixed.py', E + 'wrappers.py', E + 'fromfields.py',
    S + 'profile.py', S + 'mixins.py'],
   [('weights', E + 'choice.py _set_all_weights and setters'),
    ('replacement', E + 'choice.py replace, replace_only_after_call'),
    ('functions', E + 'wrappers.py BoundWrapper.function'),
    ('iterators', E + 'fixed.py iterator_factory'),
    ('seed', S + 'mixins.py RandomMixin.seed')],
   observe=['values and settings after the attempt']),

 P('C12', 'Emitted data is the caller\'s, and inputs are never changed',
   'Whatever a caller does to the lists, records and field lists it was given, '
   'nothing emitted later changes, and nothing emitted earlier is changed by '
   'later calls. The library never changes the items, weights, emitters and '
   'field collections it was given; changing the weights, the map of parts or '
   'the list of source fields it was given afterwards has no effect.',
   ['histories', 'configurations', 'inputs'],
   'every configuration, every history, every mutation of any container that '
   'crossed the boundary',
   'Tests read results but do not change them and then go on.',
   [E + 'choice.py', E + 'fixed.py', E + 'fromfields.py', E + 'text.py',
    S + 'profile.py', S + 'mathtools.py'],
   [('slices and new lists', E + 'choice.py, ' + E + 'fixed.py'),
    ('weights copied to cumulative weights', E + 'choice.py '
     '_set_all_weights'),
    ('records', S + 'profile.py Schema.__call__, public_fields'),
    ('shuffle on a copy', S + 'mathtools.py weighted_shuffle')],
   observe=['values, and the inputs, after mutations']),

 P('C13', 'Words and texts are exactly their parts, in order',
   'A word is exactly as long as its length part said and made of what its '
   'alphabet part gave, in order; a text has exactly as many words as its '
   'number part said, in the order its word part gave them, with what its '
   'separator part gave between them and nothing else. Over any split into '
   'requests no part\'s output is lost, repeated or given to the wrong word '
   'or text, and no request starts a part over but one that takes more words '
   'than a word part set to replace only after a call can give. Their '
   'distinct outputs never exceed the number of unique values they report.',
   ['configurations', 'histories', 'inputs'],
   'every choice of length, number, alphabet, word and separator emitters, '
   'zero lengths and zero words included, every split into requests',
   'Tests use a few fixed parts with positive counts.',
   [E + 'text.py'],
   [('word assembly', E + 'text.py Word.emit_many'),
    ('text assembly', E + 'text.py Text.emit_many, _get_words_iterator'),
    ('counts', E + 'text.py _update_num_unique_vals')],
   observe=['words and texts', 'what the parts gave']),

 P('C14', 'How often values come out follows the weights',
   'With replacement, each item comes out independently in proportion to its '
   'weight (equally if there are none), also after weights are replaced. '
   'Without replacement, each next item is chosen in proportion to weight '
   'among those left. Chance, gated and repeated fields, words and the '
   'weighted shuffle follow their stated probabilities in the same way, '
   'whether values are asked for one at a time or many at once.',
   ['configurations', 'inputs', 'histories'],
   'every item and weight list, every mode and batch size, over the '
   'distribution of random draws',
   'Tests compare fixed outputs at fixed seeds, which says nothing about '
   'frequencies; a wrong distribution with those outputs re-recorded passes.',
   [E + 'choice.py', S + 'mathtools.py', S + 'profile.py', E + 'text.py'],
   [('weighted choice', E + 'choice.py _choice_with_replacement'),
    ('weighted shuffle', S + 'mathtools.py weighted_shuffle'),
    ('chance', E + 'choice.py chance')],
   observe=['frequencies of values over many simulated draws']),

 P('C15', 'Deriving from fields leaves those fields undisturbed',
   'Building, reconfiguring, calling, resetting or seeding an emitter or field that '
   'copies from or is based on other fields does not advance, reset, reseed '
   'or change those fields, whether it succeeds or fails: they go on giving '
   'what they would have given and report the same previous value. Only '
   'asking explicitly for the sources to be reset or seeded does that, and '
   'then it does it to all of them.',
   ['histories', 'configurations', 'fault_sequences'],
   'every set of source fields, every derived emitter on them, every history '
   'of operations on the derived emitter, rejected and failing ones included',
   'Tests look at the derived value and not at whether the sources go on '
   'undisturbed.',
   [E + 'fromfields.py', S + 'profile.py', S + 'mixins.py', S + 'group.py'],
   [('derived emitters do not own their sources', E + 'fromfields.py '
     'CopyFields, BasedOnFields'),
    ('explicit source operations', E + 'fromfields.py reset_source, '
     'seed_source')],
   observe=['values of the source fields', 'previous']),

 P('C16', 'Date and time ranges read as the list they describe, for ever',
   'A date or time range holds exactly the values from its start, one step '
   'apart, before its stop; its length, indexing, slicing, membership, '
   'positions, counting, iteration, equality and hash all agree with the '
   'plain list of those values. That holds for slices of slices and copies, '
   'whatever was read before, whatever reading was interrupted, and when '
   'several threads read one range; nothing can be done to it that changes '
   'it. An emitter of a range gives what one of that list gives.',
   ['histories', 'fault_sequences', 'schedules', 'configurations'],
   'every start, stop and step of every date and time type, time zones '
   'included; every history of reads and slices; an interruption or switch '
   'of threads at every line',
   'Tests read each sampled range once; slices of slices, the edges of the '
   'calendar, what is worked out lazily and readers that overlap are not '
   'reached.',
   [S + 'dtrange.py'],
   [('index arithmetic', S + 'dtrange.py DateOrTimeRange'),
    ('values kept once worked out', S + 'dtrange.py stop, __repr__'),
    ('construction', S + 'dtrange.py dtrange')],
   observe=['sequence operations', 'attributes', 'emitted values']),

 P('C17', 'Distribution and clamp functions compute their formulas',
   'The Poisson and Gaussian helper functions give the mathematical value of '
   'their density, and clamping gives the nearest number in the stated '
   'bounds.',
   ['inputs'], 'every number',
   'Tests sample a few numbers.',
   [S + 'mathtools.py'],
   [('formulas', S + 'mathtools.py poisson, gaussian, clamp')],
   observe=['returned numbers']),

 P('C18', 'A made alphabet is exactly the requested characters',
   'Making an alphabet from character ranges gives exactly the characters of '
   'those ranges in order.',
   ['inputs'], 'every list of ranges',
   'Tests sample a few ranges.',
   [E + 'text.py'], [('ranges', E + 'text.py make_alphabet')],
   observe=['returned list']),

 P('C19', 'Deprecated names keep working, and warn at every use',
   'Names and settings that were moved or replaced can still be imported and '
   'used, in whatever order things are imported, also after an import or an '
   'earlier use was interrupted or refused; they give what the new ones give '
   'and warn that they are deprecated every time. Where warnings are errors, '
   'using one raises the warning and does nothing else. Nothing that is not '
   'deprecated warns.',
   ['histories', 'fault_sequences', 'configurations'],
   'every deprecated name and form of access, every history of accesses, '
   'filters, imports and interruptions',
   'Tests ask for each name once, under one filter, in a process where all '
   'is imported already.',
   [E + '__init__.py', E + 'wrappers.py', E + 'fixed.py', S + 'typing.py',
    S + 'warn.py'],
   [('module __getattr__', E + '__init__.py, ' + E + 'wrappers.py, ' + S +
     'typing.py'), ('warning before change', E + 'fixed.py '
     'Sequential.iterator_factory')],
   observe=['imports', 'warnings', 'values of old and new']),

 P('C20', 'Reading what an object reports changes nothing',
   'Reading what an emitter, field or schema reports about itself - its '
   'public attributes and counts, its printed form, what it hands out when '
   'asked for its parts, items or weights - has no effect: at any point of '
   'any history, the values given afterwards, by the object and by its '
   'parts, are those that would have been given had nobody looked, and '
   'reading twice says the same twice.',
   ['histories', 'configurations', 'fault_sequences'],
   'every object, every attribute, every number of readings at every point '
   'of every history, failed and refused requests included',
   'Tests read attributes to assert on them and never compare with a history '
   'in which nobody read; a reader that consumes an item or a random draw '
   'gives what those tests expect.',
   [E + 'choice.py', E + 'fixed.py', E + 'text.py', E + 'wrappers.py',
    E + 'fromfields.py', S + 'profile.py', S + 'mixins.py', S + 'group.py'],
   [('counts of unique values', E + 'choice.py, ' + E + 'text.py, '
     + E + 'wrappers.py num_unique_values, num_unique_items'),
    ('views of fields', S + 'profile.py Schema.public_fields, '
     'hidden_fields'),
    ('groups of parts', S + 'group.py')],
   observe=['attributes', 'values of calls made after reading']),

 P('C21', 'Memory in use does not grow with the number of values given',
   'Generating values can go on for as long as one likes: what an emitter, '
   'field, schema or range and the library keep between requests is bounded '
   'by the configuration and the largest request, not by how many values '
   'were given or looked up, how often the object was reset, seeded or set to what it already '
   'is, how many requests were refused or failed, or how many other objects '
   'were built and dropped.',
   ['histories', 'configurations', 'fault_sequences'],
   'every configuration and every round of operations, repeated any number '
   'of times',
   'Tests make a handful of requests and look at values, not at what is '
   'kept.',
   [E + 'choice.py', E + 'fixed.py', E + 'text.py', E + 'wrappers.py',
    E + 'fromfields.py', S + 'profile.py', S + 'mixins.py', S + 'group.py'],
   [('what is rebuilt at each reset', E + 'choice.py, ' + E + 'fixed.py'),
    ('previous, the one value that is kept', S + 'profile.py Field.previous'),
    ('groups of parts', S + 'group.py')],
   observe=['references reachable from the object and the library']),
 P('C22', 'What an object reports is true',
   'At any moment of any history, what an emitter, field or schema reports '
   'about itself is true of what it does: until the next reset or change it '
   'gives no more distinct values than num_unique_values says, and none twice '
   'if it says it emits unique values; its items, value, weights and '
   'cumulative weights, replacement settings, seed, parts, wrapper function '
   'and its signature, sources, names, hidden and public fields are those in '
   'force and agree with each other; its active iterator goes on exactly '
   'where the emitter is.',
   ['histories', 'configurations', 'fault_sequences'],
   'every attribute of every object at every point of every history of '
   'requests, settings, seedings, resets and failures',
   'Tests read a few attributes after construction; what is reported must '
   'hold of all values that come later, after any history.',
   [E + 'choice.py', E + 'fixed.py', E + 'text.py', E + 'wrappers.py',
    E + 'fromfields.py', S + 'profile.py', S + 'mixins.py',
    S + 'emitter.py'],
   [('counts and settings of choices', E + 'choice.py Choice properties'),
    ('counts of words and texts', E + 'text.py num_unique_values'),
    ('functions', E + 'wrappers.py BoundWrapper'),
    ('views of fields', S + 'profile.py Schema.public_fields, '
     'hidden_fields')],
   observe=['public attributes', 'values that come after reading them']),

 P('C23', 'How requests are split makes no difference to settled orders',
   'Where the order of values is settled in advance (constants, cycling '
   'emitters, choices without replacement, and wrappers, words and texts made '
   'of those), the values are the same however they are asked for: one at a '
   'time, in one batch, or in any mix of single values and batches, empty '
   'ones included; and after a reset or a seeding it does not show how they '
   'were asked for before.',
   ['histories', 'configurations', 'inputs'],
   'every such emitter and every pair of ways to split the same number of '
   'values, over several rounds with resets and seedings',
   'Tests ask for single values and for batches separately with fixed '
   'expectations; none compares two splits of one stream.',
   [E + 'choice.py', E + 'fixed.py', E + 'text.py', E + 'wrappers.py',
    S + 'emitter.py'],
   [('single and batch paths', S + 'emitter.py Emitter.__call__; emit and '
     'emit_many in ' + E + '*.py'),
    ('pre-shuffled order', E + 'choice.py _choice_without_replacement'),
    ('partition of characters and words', E + 'text.py emit_many')],
   observe=['values of two equal objects asked in different splits']),

 P('C24', 'A group operation reaches every member, and groups stay groups',
   'Calling a method or setting an attribute on a group of objects does so '
   'exactly once on each member that has it, in order, with the given '
   'arguments, and skips those that do not have it; if a member fails, its '
   'exception comes out and the next operation again reaches all. Whatever '
   'the history of changes, an object group is the list and an object map '
   'the ordered dict of its present members, and slices, sums and copies of '
   'groups are groups of the same members, independent of the first.',
   ['histories', 'fault_sequences'],
   'every group of members with any attributes and methods, every history of '
   'list or map operations, group operations and failures of members',
   'Tests make a few fixed groups and call one method on them; they do not '
   'edit, slice or copy groups, nor make members fail.',
   [S + 'group.py', E + 'fromfields.py'],
   [('group operations', S + 'group.py GroupMixin.setattr, do_method'),
    ('list-like groups', S + 'group.py ObjectGroup, ' + E
     + 'fromfields.py SourceFieldGroup'),
    ('map-like groups', S + 'group.py ObjectMap')],
   observe=['calls received by members', 'members of groups']),
]

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w',
              encoding='utf8') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
