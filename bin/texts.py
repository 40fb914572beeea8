"""The properties (properties.jsonl) and the hooks (MANIFEST.json)."""
HOOKS = {
    'guard': 'cfg(verif)',
    'enable': 'RUSTFLAGS="--cfg verif" (the checks set it for both harness crates)',
    'source_commits': ['1f48746', '7ea2c51', '13d4f76', 'ed6e07c'],
}
from collections import defaultdict
NOT_APPLICABLE = defaultdict(lambda: 'not built yet')
TEXTS = []


def t(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    TEXTS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files, 'state': state or [], 'mechanism': mechanism, 'observe_at': observe or [], 'hook_needed': hook}})


C = 'paladin-core/src/'


def m(name, where):
    return {'name': name, 'where': C + where if not where.startswith('paladin-') else where}


t('C01', 'Fold returns the in-order product of its input, under every schedule',
  'Folding an indexed stream whose items carry the indices 0..n with a monoid returns, for every n, the product of the items in index order: the empty element for n = 0, the item itself for n = 1, and otherwise the combination of all n items, each exactly once and in order, also for non-commutative monoids. '
  'This holds for every order in which items arrive and tasks complete, and the fold completes once its input has ended and the tasks it dispatched have been executed.',
  ['schedules', 'inputs'], 'every n, every arrival order of the items, every order of task completion and every interleaving of the two with the evaluation of the fold',
  'The tests fold a few short sequences on the emulated workers with a commutative sum, in the schedules the machine happens to produce; arrival and completion orders, and the moment at which the size of the input becomes known, are not controlled.',
  [C + 'directive/indexed_stream/foldable.rs', C + 'contiguous/queue.rs'],
  [m('pairs of contiguous results are combined, left one first', 'directive/indexed_stream/foldable.rs Dispatcher::try_dispatch'),
   m('the final result is the one whose range has the size of the input', 'directive/indexed_stream/foldable.rs is_final'),
   m('result processing starts at the second input; the size is published when the input ends', 'directive/indexed_stream/foldable.rs f_fold')],
  state=[{'name': 'assembler', 'meaning': 'partial results waiting for a neighbour', 'where': C + 'directive/indexed_stream/foldable.rs'}],
  observe=['the value returned by the directive', 'tasks published on the task channel'], hook='Runtime::verif_new (a runtime without emulated workers)')
t('C02', 'A failure of the input, of dispatch or of an operation fails the directive',
  'If an input item of a map or a fold is an error, if a task cannot be published, or if the execution of one of its tasks fails fatally with the terminating strategy, the directive (for a map of a stream, the output stream) yields an error. It never ends as if the computation were complete, never returns a value that misses the failed item, and never waits forever instead.',
  ['fault_sequences', 'schedules'], 'every position of a failing item, task or publication and every schedule',
  'The tests only run computations that succeed, apart from one fatal-error scenario per strategy; the position of the failure and the schedule are not varied.',
  [C + 'directive/indexed_stream/foldable.rs', C + 'directive/indexed_stream/functor.rs', C + 'directive/literal/functor.rs', C + 'queue/publisher.rs', C + 'runtime/mod.rs'],
  [m('errors of the sender are merged into the output stream', 'directive/indexed_stream/functor.rs f_map'),
   m('errors of input, task handler and result processor end the select', 'directive/indexed_stream/foldable.rs f_fold')],
  observe=['the result of the directive'], hook='Runtime::verif_new')
t('C03', 'Map yields exactly one output per input, under the index of that input',
  'Mapping an operation over an indexed stream yields, for every input item (i, x), exactly one output item (i, op(x)), and nothing else, and the output stream ends after the last of them; mapping over a literal yields the literal of op(x). This holds for every order of arrival of the inputs and of completion of the tasks, and with other directives running on the same runtime.',
  ['schedules', 'inputs'], 'every finite input, every arrival, publication and completion order',
  'The tests map short in-order streams over the emulated workers; completion orders and the end of the stream while results are outstanding are not controlled.',
  [C + 'directive/indexed_stream/functor.rs', C + 'directive/literal/functor.rs', C + 'runtime/mod.rs'],
  [m('the index travels with the task as metadata', 'directive/indexed_stream/functor.rs f_map'), m('the result channel is unique to the directive and coordinated with its sender', 'runtime/mod.rs lease_coordinated_task_channel')],
  observe=['items of the output stream'], hook='Runtime::verif_new')
t('C04', 'Indexed streams number items from 0 and sort back to the original order',
  'An indexed stream built from a sequence yields its items unchanged, in order, numbered 0, 1, 2, ..., each error in the place of its item, and then ends. Collecting an indexed stream into sorted values returns every value exactly once, ordered by index whatever the order they arrive in, or the error if any item is an error.',
  ['inputs'], 'every sequence of items and errors, every arrival order',
  'The tests use a handful of fixed sequences.',
  [C + 'directive/indexed_stream/mod.rs'],
  [m('enumerate', 'directive/indexed_stream/mod.rs from_into_iterator, try_from_into_iterator'), m('collect and sort by index', 'directive/indexed_stream/mod.rs into_values_sorted')])
t('C05', 'Exactly-once queue: each message reaches exactly one consumer, in order',
  'On an in-memory queue with exactly-once syndication every published message is delivered to exactly one consumer, whatever number of consumers is declared before or after it was published, and messages are delivered in the order they were published, with the content they were published with. A consumer waits exactly while no message is available to it, and is woken when one becomes available.',
  ['schedules', 'histories'], 'every history of publishing, declaring, polling and dropping consumers, and every interleaving of concurrent publishers and consumers',
  'The tests publish and consume a few messages in scripted orders.',
  [C + 'queue/in_memory.rs'],
  [m('one permit per message, added after the message', 'queue/in_memory.rs ExactlyOnceQueue::publish'), m('one message per permit', 'queue/in_memory.rs InMemoryConsumer::poll_next')],
  state=[{'name': 'messages / num_messages', 'meaning': 'backlog, and the number of messages not yet claimed', 'where': C + 'queue/in_memory.rs'}])
t('C06', 'Broadcast queue: every consumer gets every message once; history replays',
  'On an in-memory queue with broadcast syndication every message is delivered exactly once, in order, to each consumer declared before it was published; consumers declared under the same name share one subscription. With persistent delivery, messages published while there is no consumer are delivered to the first one declared, before later messages, and to no other; with ephemeral delivery they are discarded. A declaration concurrent with a publication never loses the message and never delivers it twice to one consumer.',
  ['schedules', 'histories'], 'every history of publishing and declaring, every interleaving of a concurrent declaration with a publication',
  'The tests script a few histories sequentially; a consumer declared during a publication is only reached by chance.',
  [C + 'queue/in_memory.rs'],
  [m('seen set per consumer, history for messages without consumer', 'queue/in_memory.rs BroadcastQueue::publish, BroadcastQueue::declare_consumer')],
  state=[{'name': 'history', 'meaning': 'messages published without a consumer', 'where': C + 'queue/in_memory.rs'}])
t('C07', 'A queue name denotes one queue until it is deleted',
  'Declaring a queue on an in-memory connection under a name that is in use returns the existing queue with the options it was created with; a new name creates an empty queue with the given options. Deleting a name removes exactly that queue: a later declaration creates a fresh, empty one, other names are unaffected, handles already obtained keep working, and deleting an unknown name is not an error; clones of the connection share the names.',
  ['histories', 'inputs'], 'every sequence of declare, delete, publish and consume over any names and options',
  'The tests declare one or two queues and never delete and redeclare.',
  [C + 'queue/in_memory.rs'], [m('map from name to handle', 'queue/in_memory.rs Connection for InMemoryConnection')])
t('C08', 'Channels: one queue per identifier, options by type, fresh issued names',
  'Senders and receivers of channels with the same identifier and type, obtained from the same factory, communicate through one queue: exactly-once channels through an exactly-once queue, broadcast channels through a broadcast queue, both persistent and non-durable. Issuing a channel gives one whose identifier is the returned one and fresh; each receiver is a separate consumer; releasing a channel deletes its queue and no other; errors of the connection are reported.',
  ['inputs', 'histories', 'fault_sequences'], 'every identifier, channel type and connection behaviour',
  'The tests use channels indirectly through the in-memory runtime.',
  [C + 'channel/queue.rs', C + 'runtime/dynamic_channel.rs', C + 'common/mod.rs'],
  [m('ChannelType to QueueOptions', 'channel/queue.rs'), m('release deletes the queue', 'channel/queue.rs QueueChannel::release'), m('delegation to the configured channel', 'runtime/dynamic_channel.rs')])
t('C09', 'A coordinated stream ends exactly when closed and all items acknowledged',
  'The receiver of a coordinated channel ends if, and only if, the sender has been closed or dropped and every item that was successfully sent has been received and acknowledged (positively or negatively); until then it yields the items of the underlying receiver unchanged, and it is woken when the end is reached. Publishing after closing fails and sends nothing; a failed publish is not waited for; each item is discounted once however often it is acknowledged.',
  ['schedules', 'histories', 'fault_sequences'], 'every state of the channel (any number of outstanding items) and every interleaving of publishing, closing and acknowledging with a poll of the receiver',
  'The tests send a few items and close in scripted orders; interleavings within a poll and failing publishers are not reached.',
  [C + 'channel/coordinated_channel/mod.rs', C + 'channel/coordinated_channel/coordinated_publisher.rs', C + 'channel/coordinated_channel/coordinated_stream.rs'],
  [m('pending counter and closed flag', 'channel/coordinated_channel/mod.rs ChannelState'), m('count before send', 'channel/coordinated_channel/coordinated_publisher.rs'), m('end test in poll_next, wake in the acker', 'channel/coordinated_channel/coordinated_stream.rs')],
  state=[{'name': 'num_pending_sends / closed', 'meaning': 'items sent and not acknowledged / sender closed', 'where': C + 'channel/coordinated_channel/mod.rs'}],
  hook='ChannelState::verif_new, verif_set (any state)')
t('C10', 'A composed acker acknowledges the second part only if the first succeeded',
  'Acknowledging through a composed acker acknowledges its first part and then, only if that succeeded, its second part, each once, and reports the first error; the same holds for negative acknowledgement, and the two are never exchanged. Boxed and shared ackers behave as the acker they contain.',
  ['inputs', 'fault_sequences'], 'every combination of outcomes of the parts and of ack and nack',
  'The tests cover some combinations of outcomes with fixed mock ackers, not the forwarding through pointers.',
  [C + 'acker.rs'], [m('and_then of the two parts', 'acker.rs ComposedAcker')])
t('C11', 'A leased channel is released exactly once, when its stream is dropped',
  'A lease guard passes every poll to the stream it guards and returns its answer unchanged; the channel it holds is released exactly once, when the guard is dropped, whether or not the stream has ended, and never before.',
  ['histories'], 'every sequence of polls and answers before the drop',
  'No test observes the release of a leased channel.',
  [C + 'channel/mod.rs'], [m('release in the pinned drop', 'channel/mod.rs LeaseGuard')])
t('C12', 'Publisher adapters pass on every payload once and every error',
  'A publisher adapted by a transformation publishes exactly the transformed payload once, or nothing and the error if the transformation fails; closing it closes the underlying publisher. Publishing a stream of payloads publishes every item exactly once and succeeds iff all items and publications do, and otherwise reports an error; boxed and shared publishers behave as the one they contain.',
  ['inputs', 'fault_sequences', 'schedules'], 'every payload, every outcome of the transformation, of the stream and of the underlying publisher, every concurrency limit',
  'The tests do not exercise failing transformations, streams or publishers.',
  [C + 'queue/publisher.rs'], [m('with', 'queue/publisher.rs With'), m('publish_all', 'queue/publisher.rs PublisherExt::publish_all')])
t('C13', 'Retry: as many attempts as the strategy allows, never after a success',
  'A retried operation is attempted until it first succeeds, whose result is returned, or its strategy gives up, whose last error is returned: with the immediate and delayed strategies after exactly the given number of retries, with the given pause before each; with the exponential strategy with the given minimal interval and total time. A transient operation error is retried by its own strategy and, when given up, becomes a fatal error with its own fatal strategy; a fatal error is returned as it is, without an attempt; each failed attempt that is followed by another is traced once.',
  ['inputs', 'fault_sequences'], 'every strategy, bound and sequence of attempt outcomes',
  'The tests run each strategy on one or two outcome sequences with small bounds.',
  [C + 'operation/error.rs'], [m('retry loop', 'operation/error.rs retry_simple'), m('strategy to loop', 'operation/error.rs RetryStrategy::retry_with_strategy'), m('transient to fatal', 'operation/error.rs OperationError::retry_trace')])
t('C14', 'Error conversions keep kind, strategy and message',
  'Building a transient or fatal error from any error, message or string keeps the retry strategy and fatal strategy given and the text of the error, and converting it into an operation error keeps its kind, strategies and text. Arbitrary errors become fatal with the default strategy, which terminates the job; a transient error given up becomes fatal with its own fatal strategy.',
  ['inputs'], 'every error and strategy', 'The tests convert a few errors and do not check the strategies of the result.',
  [C + 'operation/error.rs'], [m('From implementations and constructors', 'operation/error.rs')])
t('C15', 'Operations on bytes agree with operations on values',
  'Executing an operation on serialized input gives the serialization, with the same serializer, of what it returns on the value, and an operation read back from its bytes is the same operation; malformed input bytes are a fatal error and the operation is not executed. Executing a monoid as an operation on a pair combines the two in that order, with the abort signal that was given.',
  ['inputs'], 'every operation, input, serializer and byte string',
  'The tests go through whole runtimes with small integers.',
  [C + 'operation/mod.rs'], [m('byte-level defaults', 'operation/mod.rs Operation::execute_as_bytes'), m('monoid as operation', 'operation/mod.rs Operation for T: Monoid')])
t('C16', 'Tasks and results keep their identity and content through type erasure',
  'The type-erased form of a task carries its routing key, the identity of its operation, and its metadata, operation and input, from which the same values are recovered. A type-erased successful result is converted back into exactly the metadata and output it was made from, a failed one into an error with its message, and bytes that do not decode into an error.',
  ['inputs'], 'every task, result and serializer',
  'The tests round-trip a few payloads implicitly.',
  [C + 'task/mod.rs', C + 'runtime/mod.rs'], [m('as_any_task', 'task/mod.rs Task::as_any_task'), m('into_task_result', 'task/mod.rs AnyTaskResult')])
t('C17', 'A worker executes the operation the task names, on its input, as specified',
  'Executing a type-erased task executes exactly the operation it was made from, with the decoded operation and input and the given abort signal, and returns its output with the metadata of the task unchanged. An operation that returns a transient error is retried with its retry strategy (an attempt, and as many retries of it as the strategy allows) until it succeeds; a fatal error of the first execution is returned unretried; a panic, undecodable bytes and an unknown operation are fatal errors, not a crash of the worker.',
  ['programs', 'inputs', 'fault_sequences'], 'every set of registered operations (in any modules), every task, every sequence of outcomes of the operation',
  'The tests define one or two operations in one module, so a wrong choice of operation is invisible, and do not panic or send malformed tasks.',
  ['paladin-opkind-derive/src/lib.rs', C + 'task/mod.rs', C + 'lib.rs'], [m('operation registry', 'lib.rs __private::OPERATIONS'), m('lookup', 'task/mod.rs AnyTask::remote_execute'), m('generated execution function', 'paladin-opkind-derive/src/lib.rs operation_derive')])
t('C18', 'Workers answer every task once, and abort only the jobs they must',
  'A worker answers each task it takes exactly once: on success it sends the output to the channel the task names and acknowledges the task; on a terminating error it sends the error message there, tells all workers to abort, negatively acknowledges the task and does not execute further tasks of that job; on an ignored error it only negatively acknowledges it, and continues with the job. Tasks of a job known to be terminated are negatively acknowledged and not executed; after an abort signal for all jobs the worker raises the abort flag of the running operation and stops.',
  ['histories', 'schedules', 'fault_sequences'], 'every sequence of tasks, outcomes and control messages',
  'The tests run one failing and some succeeding jobs and observe the leader only.',
  [C + 'runtime/mod.rs'], [m('dispatch', 'runtime/mod.rs WorkerRuntime::dispatch_ok, dispatch_fatal'), m('main loop', 'runtime/mod.rs WorkerRuntime::main_loop')], hook='WorkerRuntime::verif_new, ExecutionErr::verif_new')
t('C19', 'Assembling contiguous values never loses, duplicates or misorders one',
  'Offering a value to a contiguous queue either returns it together with a contiguous neighbour, the one with the smaller key first, and removes that neighbour, or stores it; every other value stays stored unchanged. A neighbour that is immediately next to the value among the stored ones is always found; a stored value is taken out at most once, also by concurrent callers.',
  ['inputs', 'schedules', 'histories'], 'every content of the queue, every value offered, every interleaving of concurrent calls',
  'The tests offer three values to fixed queues sequentially.',
  [C + 'contiguous/queue.rs'], [m('neighbour search', 'contiguous/queue.rs find_contiguous'), m('acquire or store', 'contiguous/queue.rs acquire_contiguous_pair_or_queue')])
t('C20', 'Serialization round-trips with each format and rejects malformed bytes',
  'For each configured format, serializing a value and deserializing the bytes with the same format gives the value back, for every value of the message types of the system and of user types; bytes from which no value of the type can be read are an error, not a panic. The format used is the one configured.',
  ['inputs'], 'every value and every byte string', 'The tests serialize a few values.',
  [C + 'serializer/mod.rs'], [m('format dispatch', 'serializer/mod.rs Serializer::to_bytes, from_bytes'), m('selection by configuration', 'serializer/mod.rs From<&Config>')])
t('C21', 'The AMQP backend maps queues and messages to the broker faithfully',
  'Over AMQP an exactly-once queue is a queue of that name, published to through the default exchange, and a broadcast queue is a fanout exchange and a bound queue of that name, with durability, expiry and message persistence as the options say, and a broadcast message reaches each consumer. A consumer yields every decodable message once, in order, with an acker that acknowledges that message (nack as nack), skips what cannot be received or decoded without stalling, and ends when the broker ends it; errors of the broker are reported.',
  ['inputs', 'fault_sequences', 'histories'], 'every options value, payload and sequence of broker answers',
  'No test touches the AMQP backend: there is no broker.',
  [C + 'queue/amqp.rs'], [m('declaration', 'queue/amqp.rs declare_single, declare_broadcast'), m('publication', 'queue/amqp.rs publish_single, publish_broadcast'), m('consumption', 'queue/amqp.rs AMQPConsumer::poll_next')])
