"""Writes /verif/properties.jsonl (the list of properties lives here, one call each)."""
import json
import os

P = []


def prop(id, title, statement, over, quant, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(quant.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


prop('C01', 'Query results do not depend on the order in which loaders complete', '''
For every valid graph and query whose loaders are functions of their arguments, the executed result
holds, for every selected field and link at every object reached, exactly the value its loader returned
for that object and those options. The result is complete and identical for every order and grouping in
which the executor reports outstanding loader calls as finished, and whether calls are run eagerly at
submission or only when completed.''',
     ['schedules', 'programs', 'inputs'], '''all completion orders and completion groups of the outstanding
loader calls, for all small graphs (one/maybe/many links, with and without requires, cycles, shared
objects, per-field loaders) and queries over them''',
     '''The tests run each query once with the synchronous executor, or with one thread/asyncio schedule the
host happens to pick; they never vary which loader finishes first.''',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/result.py'],
     [('Query.process_node / process_link', 'hiku/engine.py'), ('Queue.progress', 'hiku/executors/queue.py')],
     ['value of the Proxy returned by Engine.execute', 'hiku.result.denormalize of that value'],
     [('Index', 'normalized values per node and identifier', 'hiku/result.py')])

prop('C02', 'Loaders are batched per selection: no N+1 calls, no over- or under-fetch', '''
Within one unordered selection of a node, each field loader function is called exactly once, with exactly
the fields that are selected (or required by selected links) from it and with exactly the identifiers the
parent link produced, in that order; each selected link's loader is called exactly once. The number of calls
and the fields they ask for never depend on how many objects are involved. No loader of an unselected field
or link is called, and nothing is called for a node to which no object was linked.''',
     ['programs', 'inputs', 'schedules'], '''all small graphs, queries and data sizes (0..n objects per link),
all completion orders''',
     '''Tests check the call arguments of a handful of fixed queries under one schedule.''',
     ['hiku/engine.py'],
     [('SplitQuery', 'hiku/engine.py'), ('from_func grouping in Query.process_node', 'hiku/engine.py')],
     ['arguments of every call of every loader function'])

prop('C03', 'Link loaders run after the field they require and see its values', '''
The loader of a link declared with `requires` is called only after the loader of the required field at the
same place has finished, and is given exactly the values loaded for that field, one per object and in the
same order as the objects (on the root node: the single value). Every object is then linked to exactly the
targets returned for it: one, none (null) or a list in the returned order.''',
     ['schedules', 'programs', 'inputs'], '''all completion orders over graphs where required fields and
links come from different loaders, on root and nested nodes, with one/maybe/many links, options on the
required field and duplicated objects''',
     '''Tests exercise a few required links with the synchronous executor, where everything completes in
submission order.''',
     ['hiku/engine.py'],
     [('link_reqs, store_links, link_result_to_ids', 'hiku/engine.py'),
      ('Queue.add_callback(dep, schedule)', 'hiku/engine.py')],
     ['call/finish order and arguments of loaders', 'the executed result'])

prop('C04', 'Ordered (mutation) selections run one after another in document order', '''
In an ordered selection, such as the top level of a GraphQL mutation, the loader call of each field or link
starts only after the loader calls of everything selected before it at that level have finished, in the order
in which the operation's document lists them (after fragments are expanded and duplicates merged into their first
occurrence); only adjacent fields sharing one loader function may be served by one call. This holds for simple
fields, links with and without requires, fields with structured types and aliased repetitions, and the values
returned are the same as for an unordered query.''',
     ['schedules', 'programs'], '''all sequences of up to n top-level selections over an alphabet of fields and
links with shared and distinct loaders, all completion orders''',
     '''Tests check two fixed ordered queries; interleavings of links, complex fields, aliases and fragments are
not covered.''',
     ['hiku/engine.py', 'hiku/readers/graphql.py', 'hiku/query.py'],
     [('GroupQuery, Query._process_node_ordered', 'hiku/engine.py'), ('merge', 'hiku/query.py')],
     ['start/finish events of every loader call', 'executed result'])

prop('C05', 'A failing loader always fails the execution with its own error', '''
If loader calls raise, Engine.execute raises one of those very exceptions - it never returns a result, hangs or
reports a different error - whichever call fails and in whatever order the remaining calls complete. No loader
that needs data from the failed call is started. Afterwards the same engine and graph still execute
queries correctly.''',
     ['fault_sequences', 'schedules'], '''a fault injected at every loader call (and every pair of calls) of every
query of the family, under every completion order''',
     '''Tests inject one or two faults under the default schedule.''',
     ['hiku/engine.py', 'hiku/executors/queue.py', 'hiku/executors/sync.py', 'hiku/executors/threads.py',
      'hiku/executors/asyncio.py'],
     [('FutureLike.result / dep.result()', 'hiku/executors/sync.py'), ('Queue.progress', 'hiku/executors/queue.py')],
     ['exception raised by Engine.execute', 'loader calls made'])

prop('C06', 'Sync, thread-pool and asyncio executors agree and always terminate', '''
For every query, the synchronous, the thread-pool and the asyncio executor return the same result (and for loaders
that raise, all raise one of the loaders' own errors), after every loader call submitted has finished,
for every completion order of the pool's threads or the loop's tasks. Calls that do not depend on each other are
all handed to the executor before any of them has to finish, and execution always terminates once all
submitted calls have completed.''',
     ['schedules', 'configurations'], '''the three shipped executors, all orders and groups of completions of
outstanding calls, including completions that happen before waiting starts''',
     '''Tests run each executor with free-running threads/tasks: one schedule per run, chosen by the OS or by sleeps.''',
     ['hiku/executors/sync.py', 'hiku/executors/threads.py', 'hiku/executors/asyncio.py', 'hiku/executors/queue.py'],
     [('process loops', 'hiku/executors/*.py')],
     ['result of Engine.execute', 'set of running tasks/futures at return'])

prop('C07', 'Cancelling an asyncio execution cancels and awaits every outstanding call', '''
When the task that awaits an asyncio execution is cancelled, at any point of the execution, every outstanding loader
task receives a cancellation, and the CancelledError reaches the caller only after all loader tasks (including
their own cleanup) have ended. No loader is started after the cancellation, none is left running, and errors raised
by loaders during cleanup do not replace the cancellation.''',
     ['schedules', 'crash_points', 'fault_sequences'], '''cancellation at every quiescent point of the execution and
between completion of tasks and their processing; loaders that end at once, clean up asynchronously, or raise
during cleanup''',
     '''One test cancels one query at one point, with one task of one kind.''',
     ['hiku/executors/asyncio.py'],
     [('AsyncIOExecutor.process except CancelledError', 'hiku/executors/asyncio.py')],
     ['states of loader tasks when the awaiting task ends', 'its exception'])

prop('C08', 'Queue callbacks fire exactly once, only after the work they wait for', '''
In the scheduling queue, a callback registered on a submitted call runs exactly once, when that call is reported
done; a callback registered on a group of calls runs exactly once, after every call submitted to the group and every
group forked from it, transitively and including those added meanwhile by callbacks, is done, and in registration
order. Once all calls are reported done every callback has run, so no continuation is lost and none runs early.''',
     ['schedules', 'histories'], '''all small trees of groups, calls and callbacks that submit further work, all orders
and groups of completion reports''',
     '''Three unit tests walk one fixed tree in one fixed order.''',
     ['hiku/executors/queue.py'],
     [('Queue.progress', 'hiku/executors/queue.py'), ('Queue.fork', 'hiku/executors/queue.py')],
     ['order of callback invocations relative to reported completions'],
     [('_futures/_forks/_callbacks', 'outstanding work per group', 'hiku/executors/queue.py')])

prop('C09', 'Malformed loader results are rejected, never attributed to wrong objects', '''
If a field loader returns anything other than one value per requested field (root) or one row per identifier
with one value per requested field, or a link loader returns something other than what its type demands (one entry
per required value, a list of targets for list links, never Nothing for a non-optional link), execution raises an
error and returns no result. Well-formed results (lists or tuples of the right shape) are always accepted.''',
     ['inputs', 'fault_sequences'], '''all result shapes up to a small size (too short, too long, None, scalar, mapping,
set, nested wrong, Nothing) at every field and link kind, root and nested, with 0..2 objects''',
     '''Tests cover a table of a few wrong shapes; not the combinations with link kinds, positions and sizes.''',
     ['hiku/engine.py'],
     [('_check_store_fields, _check_store_links, link_result_to_ids', 'hiku/engine.py')],
     ['outcome of Engine.execute'])

prop('C10', 'Selections with different options or aliases never share each other\'s data', '''
When a field or link is selected several times in one query, at one place or at several places, with different
option values or under different aliases, each selection in the result holds the data loaded for its own option
values; option values that merely look alike (such as 1, 1.0 and true, -1 and -2, an empty string, list, object,
zero or null, or nested variants of these) are kept apart, and selections with equal options get equal data.''',
     ['inputs', 'programs'], '''all pairs of option values from a value domain built to collide, on fields, links and
required fields, at the same object and via different paths to the same object''',
     '''Tests use one or two distinct string options; colliding values are not tried.''',
     ['hiku/query.py', 'hiku/engine.py', 'hiku/result.py'],
     [('FieldBase.index_key / options_hash', 'hiku/query.py'), ('store_fields, store_links', 'hiku/engine.py')],
     ['executed result per result name', 'options received by loaders'])

prop('C11', 'Loaders receive exactly their declared options, defaulted and complete', '''
A field or link loader declared with options always receives all declared option names and no others, each with
the value given in the query or else the declared default (null given explicitly stays null), at every level:
top-level, nested, under aliases, in ordered selections, for fields pulled in by `requires`, and in the sub-queries made for two-level graphs.
If the query lacks a required option, execution raises TypeError before any loader is called.''',
     ['inputs', 'programs'], '''all subsets of declared options x given values x defaults, for fields, links, complex fields,
required fields and sub-query fields''',
     '''Tests check a few single-option cases at the root.''',
     ['hiku/engine.py', 'hiku/sources/graph.py'],
     [('InitOptions, _get_options', 'hiku/engine.py')],
     ['options seen by loaders'])

prop('C12', 'Merging queries preserves what they ask for', '''
Executing the merge of several queries gives, under every result name, the same data as executing each query on its
own, and asks for nothing else; the merge contains each (name, options, alias) selection once per level, is
ordered if any input is, and merging again changes nothing. The merged inputs are not modified.''',
     ['inputs', 'programs'], '''all pairs (and small tuples) of queries from an enumerated family with overlapping links,
aliases, options and nesting''',
     '''Tests compare three hand-written merges.''',
     ['hiku/query.py'],
     [('merge', 'hiku/query.py')],
     ['hiku.query.merge result and its execution'])

prop('C13', 'GraphQL documents are read with the meaning the GraphQL spec gives them', '''
Reading a valid GraphQL document yields exactly the selections the GraphQL specification prescribes for the chosen
operation and variables: aliases, arguments of every literal kind, variables and their defaults, named and inline
fragments at any depth, duplicated selections merged, @skip and @include on fields, spreads and inline fragments
alone or together. Documents with cyclic or undefined fragments, undefined variables, missing non-null variables,
ambiguous, duplicate or unknown operations are rejected with an error rather than read as something else.''',
     ['inputs', 'programs'], '''all documents up to a size over a grammar of fields, fragments, directives and
variables x all assignments of the variables''',
     '''Tests read about thirty fixed documents; combinations (directive on a fragment inside a fragment, both
directives, defaults with nulls) are not covered.''',
     ['hiku/readers/graphql.py'],
     [('GraphQLTransformer, FragmentsTransformer, _should_skip', 'hiku/readers/graphql.py')],
     ['query tree returned by read / read_operation'])

prop('C14', 'Query validation accepts exactly the queries the graph can answer', '''
Validation reports no error for every query that fits the graph - known names, fields selected as fields and links as
links, records selected along their declared structure, known options with values of the declared type and all required
ones present, no two different selections under one result name at one place - and at least one error for every query
that does not. It never raises, whatever the query.''',
     ['inputs', 'programs'], '''all queries up to a size over an alphabet of existing, missing and misused names, options
and aliases x typed option values''',
     '''Tests check a fixed list of valid and invalid queries.''',
     ['hiku/validate/query.py'],
     [('QueryValidator, _OptionTypeValidator, _RecordFieldsValidator', 'hiku/validate/query.py')],
     ['list of errors from hiku.validate.query.validate'])

prop('C15', 'Every validated query executes and denormalizes to exactly what it asked', '''
Any query that passes validation executes without error on loaders that honour the declared types, and both
denormalization functions turn the result into plain data with exactly the requested keys (aliases included) at every level,
in the requested nesting, with links and structured fields as objects, lists or null according to their declared
types, and with the loaded values.''',
     ['programs', 'inputs'], '''all queries up to a size accepted by validation over graphs with all link kinds and
record types (inline, referenced, optional, in sequences), all data variants (null, empty, several)''',
     '''Tests denormalize a handful of fixed results.''',
     ['hiku/result.py', 'hiku/denormalize/base.py', 'hiku/denormalize/graphql.py', 'hiku/validate/query.py',
      'hiku/engine.py'],
     [('denormalize', 'hiku/result.py'), ('Denormalize.visit_link', 'hiku/denormalize/base.py')],
     ['hiku.result.denormalize, Denormalize.process, DenormalizeGraphQL.process'])

prop('C16', 'Queries survive a round trip through every wire format', '''
A query built with the builder, or exported to the EDN, Protocol Buffers or GraphQL representation, serialized and
read back, is the same query: names, nesting and options with all their values and types of value (aliases too for
GraphQL and the builder), up to the merging of duplicates that readers perform
(numbers are compared by value for Protocol Buffers, which has only doubles). Options that cannot be represented are rejected
with an error instead of being altered.''',
     ['inputs'], '''all queries up to a size x option values from a domain of scalars, strings with special characters,
nested lists and maps''',
     '''Tests compare one fixed query per format.''',
     ['hiku/export/simple.py', 'hiku/export/protobuf.py', 'hiku/export/graphql.py', 'hiku/readers/simple.py',
      'hiku/readers/protobuf.py', 'hiku/readers/graphql.py', 'hiku/builder.py', 'hiku/edn.py'],
     [('export / read pairs', 'hiku/export/*.py, hiku/readers/*.py')],
     ['equality of the query read back'])

prop('C17', 'EDN text decodes back to the value it encodes', '''
For every value the EDN encoder accepts, decoding the encoded text gives the same value with the same types (lists and
tuples as EDN vectors and lists; keywords, symbols, strings, numbers, sets, maps, dates, UUIDs and tagged elements kept apart), with and without
ASCII escaping and however values are nested or adjacent. A value that has no notation is refused with an error, or encoded
as what the given default function makes of it, wherever it is. Whitespace, commas and comments between elements do not
change what is decoded, and text that is not exactly one complete element is rejected.''',
     ['inputs'], '''all values up to a nesting depth over atoms chosen per syntax branch, all strings up to a length over a
special alphabet, all layouts of separators; truncations of every encoded text''',
     '''Tests decode about twenty literals.''',
     ['hiku/edn.py'],
     [('parser coroutines', 'hiku/edn.py'), ('_iterencode', 'hiku/edn.py')],
     ['loads(dumps(x))'])

prop('C18', 'Invalid graph definitions are rejected, valid ones are always accepted', '''
Building a graph fails with the graph validation error exactly when it has duplicate node names, duplicate
names within a node (or across root definitions), a link to a missing node, a link requiring something that is not a
field of its node, or items of a wrong kind as nodes, fields or options; it never fails with another error. Any
other definition is accepted, whatever the order of its items.''',
     ['programs', 'configurations'], '''all graphs of up to two nodes, two roots and a few items from an alphabet of correct and defective
items, in all orders''',
     '''Tests check one example per error message.''',
     ['hiku/validate/graph.py', 'hiku/graph.py'],
     [('GraphValidator', 'hiku/validate/graph.py')],
     ['outcome of Graph(...)'])

prop('C19', 'Graph transformations preserve behaviour and never modify their input', '''
Transforming a graph (identity transformation, introspection, metrics, or any chain of them through apply) gives a
graph on which every query of the original graph executes to the same result with the same loader calls. Names, types,
options, defaults, descriptions, requirements and data types are kept, and the original graph, its nodes and fields are left
unmodified and usable.''',
     ['programs', 'configurations', 'histories'], '''all chains up to length n of the shipped transformers x graphs with options, record
types, sub-graph expressions, context-passing loaders x queries''',
     '''Tests apply single transformers to one graph each.''',
     ['hiku/graph.py', 'hiku/introspection/graphql.py', 'hiku/telemetry/prometheus.py'],
     [('GraphTransformer, apply', 'hiku/graph.py')],
     ['graph definition before/after', 'executions on both graphs'])

prop('C20', 'Introspection describes the graph faithfully as a valid GraphQL schema', '''
For every graph that GraphQL can express, the standard introspection query returns a schema that standard GraphQL tooling can
build, and in which the types, fields, arguments, argument defaults, nullability, list-ness, descriptions and input types are exactly
those declared (data types that are not records stand for what they name); __type(name) and __typename agree with it. A graph whose
names are not GraphQL names, or with an object without visible members, is refused and not introspected. Underscore-prefixed fields stay hidden, and the synchronous and
asynchronous variants, and the query and mutation graphs, report the same schema.''',
     ['programs', 'configurations'], '''all field/link/option types up to a nesting depth, with and without defaults and
descriptions, data types, mutation graph, sync and async''',
     '''Tests compare three hand-written graphs.''',
     ['hiku/introspection/graphql.py'],
     [('GRAPH link functions, TypeIdent', 'hiku/introspection/graphql.py')],
     ['answer to the introspection query through Engine/Endpoint'])

prop('C21', 'Two-level graph fields equal direct evaluation and fetch only what is needed', '''
A field of a high-level graph defined by an expression over a low-level graph has, for each object, exactly the value of
that expression evaluated directly over the low-level data (this object, root fields and links, options, each / if / if_some and
functions), regardless of completion order and of which other expression fields are queried together. Only the
low-level fields that the selected expressions use are loaded, each low-level loader being called once per
place, for all objects together.''',
     ['programs', 'schedules', 'inputs'], '''all expressions up to a depth over an alphabet of fields, links (one/maybe/many), options,
variables with shadowing, functions and conditionals, all pairs of fields, all completion orders''',
     '''Tests evaluate about ten fixed expressions synchronously.''',
     ['hiku/sources/graph.py', 'hiku/expr/core.py', 'hiku/expr/refs.py', 'hiku/expr/compiler.py', 'hiku/expr/checker.py'],
     [('SubGraph.__call__', 'hiku/sources/graph.py'), ('RequirementsExtractor', 'hiku/expr/refs.py'),
      ('ExpressionCompiler', 'hiku/expr/compiler.py')],
     ['result of executing the high-level graph', 'low-level loader calls'])

prop('C22', 'Expressions that type-check never fail on missing data; ill-typed are rejected', '''
An expression accepted when the high-level graph is built evaluates without missing-field, missing-variable or null-access
errors on any low-level data of the declared types. Expressions that use an unknown name or field, access a field through an optional value
without if_some, use a variable outside its scope, iterate over something that is not a sequence, or pass a
function a wrong number of arguments or a structure lacking a required field are rejected when the graph is built; one with no
such fault is accepted.''',
     ['programs', 'inputs'], '''all expressions up to a depth, well- and ill-typed, against an independent type checker and evaluator''',
     '''Tests check about fifteen fixed expressions.''',
     ['hiku/expr/checker.py', 'hiku/expr/refs.py', 'hiku/expr/compiler.py', 'hiku/sources/graph.py'],
     [('Checker, check_type, Environ', 'hiku/expr/checker.py')],
     ['outcome of Graph(...) and of execution'])

prop('C23', 'SQL sources return each row\'s data for exactly the object it belongs to', '''
Fields loaded from a table give each object the column values of the row with its primary key, in the requested column order, and nulls when
there is no such row, whatever the order, duplication or absence of rows and identifiers; links give each object exactly
the targets its column value maps to (nothing for null or unmatched values). This holds for the synchronous source
and for the asynchronous ones however the driver splits the rows into fetched buckets.''',
     ['inputs', 'schedules', 'programs'], '''all small tables, identifier lists with duplicates/missing/null, column selections, link kinds;
all bucket partitions''',
     '''Tests query one fixed table; missing, null and duplicate identifiers are sampled, bucket boundaries never.''',
     ['hiku/sources/sqlalchemy.py', 'hiku/sources/sqlalchemy_async.py', 'hiku/sources/aiopg.py'],
     [('FieldsQuery.select_expr result_proc', 'hiku/sources/sqlalchemy.py'),
      ('fetchmany loops', 'hiku/sources/sqlalchemy_async.py, hiku/sources/aiopg.py')],
     ['executed query results', 'SQL statements issued'])

prop('C24', 'Metrics do not change results and are attributed to the right node and field', '''
A graph wrapped with the metrics transformers returns the same results, errors and loader arguments as the bare graph, for
synchronous and asynchronous loaders, loaders that take the context, and sub-graph expressions. Each successful loader call records
exactly one observation for every field or link it served, labelled with the graph, the node and the field
where it was selected, even when loader functions are shared between fields and nodes; the time recorded is the time which that
call took, whatever else happens at the same time.''',
     ['programs', 'schedules'], '''all graphs from a family with shared/unshared loaders x queries x completion orders, sync and async''',
     '''Tests wrap one graph with one loader per node.''',
     ['hiku/telemetry/prometheus.py'],
     [('GraphMetricsBase.visit_field/_wrap_field', 'hiku/telemetry/prometheus.py')],
     ['metric samples', 'results'])

prop('C25', 'GraphQL endpoints answer every request, and each batch item on its own', '''
For every request object with any query text (nested less deeply than the interpreter's recursion limit), variables and operation name, the
endpoint returns either data (for a query it can answer) or a non-empty list of errors (for any document that cannot be parsed, read or
validated; then no loader is called), and never raises because of the document's content. A
batch returns one response per item, in order, each equal to what the item would get alone; synchronous and
asynchronous endpoints answer alike, and mutations run on the mutation graph only.''',
     ['inputs', 'histories', 'schedules'], '''all requests from a family of valid and faulty documents, all batches up to length n over
it, all completion orders for the asynchronous endpoint''',
     '''Tests send a few single requests and one batch.''',
     ['hiku/endpoint/graphql.py', 'hiku/readers/graphql.py'],
     [('dispatch, _switch_graph, _process_query', 'hiku/endpoint/graphql.py')],
     ['dispatch return value'])

prop('C26', 'Executions are isolated: repeated or concurrent runs do not affect each other', '''
Executing a query never changes the graph, the query object, the options given in it, or the context, so repeating any query, or any sequence of
queries, on one engine gives each time what a fresh engine and graph would give. Executions running concurrently on one asyncio
loop, in whatever interleaving, each return their own complete result and see only their own context.''',
     ['histories', 'schedules'], '''all sequences of up to n executions from a query family on shared engine/graph; all interleavings of two
concurrent executions' loader completions''',
     '''Tests execute each query once on fresh objects.''',
     ['hiku/engine.py', 'hiku/graph.py', 'hiku/query.py', 'hiku/sources/graph.py'],
     [('Engine.execute creates Queue/Query per call', 'hiku/engine.py')],
     ['results, query and graph objects after execution'])

prop('C27', 'The console application answers every HTTP request with a well-formed response', '''
For every method, path and request body the console WSGI application calls start_response once with a proper status, a Content-Length equal
to the length of the returned body, and the documented outcome: pages for GET, 405 for wrong methods, 404 for unknown paths, 400 for oversized bodies or queries that fail
validation, 500 with a traceback only in debug mode for queries that cannot be read or executed, and otherwise 200 with the query's result as
JSON.''',
     ['inputs', 'configurations'], '''all methods x paths x bodies (valid, invalid, failing, oversized, empty, undecodable) x content lengths x debug x mount prefixes''',
     '''Tests post one query and get one page.''',
     ['hiku/console/ui.py'],
     [('ConsoleApplication.__call__', 'hiku/console/ui.py')],
     ['start_response arguments and body'])

prop('C28', '__typename answers with the type of the object at that place, at every place', '''
In a GraphQL response, __typename - selected at any place, any number of times, under any alias, beside or without other
fields - is the name of the type of the object at that place as reported by introspection: the root type of the
operation, the linked node or the record type, for single, optional and list links. It is answered without calling loaders and
does not change the rest of the response.''',
     ['programs', 'inputs'], '''all queries up to a size with __typename inserted at every subset of selections, queries and mutations''',
     '''Tests check three queries.''',
     ['hiku/denormalize/graphql.py', 'hiku/endpoint/graphql.py', 'hiku/introspection/graphql.py'],
     [('DenormalizeGraphQL', 'hiku/denormalize/graphql.py'), ('_StripQuery', 'hiku/endpoint/graphql.py')],
     ['endpoint response'])

prop('C29', 'Exported kinko type definitions denote exactly the types of the graph', '''
The kinko text of a graph has one definition for every node, every data type and every typed member of the root, and a
field definition for every typed field and link of each node, in order and with its declared type - optionals, sequences,
mappings, records and references nested in any way. Fields of unknown type are left out. A description appears as a
comment at the definition it belongs to, and whatever it contains it does not change what the text defines.''',
     ['inputs', 'programs'], '''all type expressions up to a nesting depth at every place, all sequences of members up to a length, all
assignments of descriptions''',
     '''Tests compare ten texts.''',
     ['hiku/typedef/kinko.py', 'hiku/typedef/types.py', 'hiku/graph.py'],
     [('_IndentedPrinter', 'hiku/typedef/kinko.py'), ('GraphTypesEx', 'hiku/typedef/kinko.py')],
     ['hiku.typedef.kinko.dumps'])

prop('C30', 'A result answers reads for exactly what was queried, and reading never alters it', '''
At every place of the result of a query, reading an item or an attribute named like a selected field or link (its alias when
it has one) gives its value: the loaded data, an object, a list of objects or None. Any other name - also one that was
only loaded for a link's requirement, that was selected elsewhere for the same object, or that is the original name of an
aliased selection - raises KeyError by item and AttributeError by attribute. Reading and denormalizing, in any
order and any number of times, gives the same answers.''',
     ['inputs', 'histories'], '''all queries up to a size with all assignments of aliases x every name at every place; all
histories of reads up to a length''',
     '''Tests read selected paths of three results once.''',
     ['hiku/result.py', 'hiku/query.py', 'hiku/engine.py'],
     [('Proxy.__getitem__', 'hiku/result.py'), ('Node.result_map', 'hiku/query.py'), ('Index.finish', 'hiku/result.py')],
     ['items and attributes of the object returned by Engine.execute'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
