import json
F=lambda *a:['src/%s.rs'%x for x in a]
PS='serializers/url_path','deserializers/url_path'
props=[]
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    a={'files':F(*files),'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if observe: a['observe_at']=observe
    props.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})

P('C01','Scalar parameters arrive with the value they were sent with',
 'Every boolean, integer, float, character and string given as a path, query or header parameter is written as the plain text of exactly that value (never of a narrowed, re-interpreted or constant one), an enum variant without data as its name, and the receiving side turns that text back into a value of the very type asked for and hands on exactly that value. A text that is not a value of the requested type is refused with an error; it is never replaced by a default (a unit, in particular, is read from the one text that stands for it and from no other).',
 ['inputs','programs'],'For every value of every scalar type, at every parameter position, of every procedure a user defines.',
 'Three writers times 12 scalar types and three readers times 12 types; the tests send two or three strings and one usize through some of them.',
 ['serializers/url_path','serializers/url_query','serializers/http_header','deserializers/url_path','deserializers/url_query','deserializers/http_header'],
 [('serde scalar methods of the three serializers','impl Serializer for UrlPathSerializer / UrlQuerySerializer / HttpHeaderSerializer'),('serde scalar methods of the three deserializers','impl Deserializer for UrlPathDeserializer / UrlQueryDeserializer / HttpHeaderDeserializer')])

P('C02','A request path spells the entry point with every argument in its own segment',
 'The path of every request is the sequence of segments of the procedure\'s entry point, the constants literally and the path arguments in their declared order, each in exactly one segment; the server recovers each argument by percent-decoding its own segment exactly once as UTF-8. A number of arguments other than the number of variables, a constant that does not match, a malformed escape, or an argument that a URL path cannot carry is an error and never a different path or argument.',
 ['inputs','programs','configurations'],'For every entry point (any mix of constants and variables) and every tuple of path arguments, including empty strings, slashes, percent signs and non-ASCII text.',
 'The tests use one entry point shape on each side with plain ASCII arguments.',
 ['serializers/url_path','deserializers/url_path','procedure','misc'],
 [('constant segments emitted up to the next variable, then the argument','UrlPathSerializer'),('argument count compared with the variables of the entry point','UrlPathSerializer serialize_tuple*/serialize_unit*'),('segment walk and percent-decoding','UrlPathDeserializer, percent_decode')],
 [('index','position in the entry point','UrlPathSerializer, UrlPathDeserializer'),('free_vars','variables not yet read','UrlPathDeserializer')])

P('C03','Query parameters keep their names and values, whatever else is in the query',
 'Each present query parameter is written once, as its own name paired with its own value, and an absent optional one is left out; on the receiving side every pair of the query is offered as that name followed by that value, in order, and nothing else is. A parameter the receiver does not know is skipped together with its value and does not disturb the ones after it.',
 ['inputs','programs','histories'],'For every sequence of query parameters (present, absent, unknown, repeated, empty) of every request type.',
 'The tests read one query with two known fields and write three; absent, unknown and repeated parameters are hardly sampled.',
 ['serializers/url_query','deserializers/url_query'],
 [('pending key consumed by exactly one value','UrlQuerySerializer'),('key/value alternation over the parsed pairs','UrlQueryDeserializer')],
 [('key','name waiting for its value','UrlQuerySerializer'),('phase','whether a name or a value is next','UrlQueryDeserializer')])

P('C04','Header fields keep their names and values and cannot forge other headers',
 'Each present header field is written once, under its own name with its own raw value, and an absent optional one is left out; the receiver is offered every received header as its lower-cased name followed by its own value, and a header it does not know is skipped with its value. A name or value containing a line break, NUL or, in a name, a colon is refused with an error before anything is written.',
 ['inputs','programs','histories'],'For every sequence of header fields of every request and response type and every received header block.',
 'No test exercises a header with hostile bytes, with upper-case names or followed by an unknown one.',
 ['serializers/http_header','deserializers/http_header'],
 [('pending key consumed by exactly one value, safety checks before the header is added','HttpHeaderSerializer'),('key/value alternation over the headers','HttpHeaderDeserializer')],
 [('key','name waiting for its value','HttpHeaderSerializer'),('phase','whether a name or a value is next','HttpHeaderDeserializer')])

P('C05','A request carries its parts where the server looks for them',
 'A request is sent with the method and entry point of its procedure; its path, query and header parts go into the URL path, the URL query and the HTTP headers, and the server reads each part back from that same place using the same procedure\'s entry point. A request without a path part still addresses the entry point, any other part is refused with an error, and the URL is never fixed before a part that still belongs in it.',
 ['inputs','programs'],'For every procedure and every combination of present and absent parts in any declared order.',
 'The tests use a handful of request types, each with one combination of parts.',
 ['serializers/rpc_request','deserializers/rpc_request','client','server'],
 [('field dispatch by part name','RpcRequestSerializer::serialize_field'),('parts offered by name with the matching reader','RpcRequestDeserializer MapAccess')],
 [('temp_url','URL under construction','RpcRequestSerializer'),('connection/request','whether the request line is already fixed','RpcRequestSerializer')])

P('C06','Response status and headers mean the same to the server and the client',
 'A response leaves the server with the status code that its value states, either as a number or by the name of its variant, and the client decodes exactly the status code it received: as that number, or as the variant with the standard name of that code. The name tables of both sides are inverse to each other and agree with the HTTP status registry, the header part is carried in the HTTP headers, and a response that states no status, or an unknown name or code, is an error.',
 ['inputs','programs'],'For every response type and value and every status code 0..65535.',
 'The tests see two or three of the 56 codes.',
 ['serializers/rpc_response','deserializers/rpc_response'],
 [('variant name to status and status to variant name tables','status_from_str, status_code_to_str'),('status and header parts','RpcResponseSerializer::serialize_field, RpcResponseDeserializer MapAccess')])

P('C07','A request is routed to the handler registered for its path and method',
 'The server hands a request to the handler registered for its HTTP method under the entry point obtained by walking every segment of the request path in order, preferring an equal constant segment over a variable at each step. When no entry point matches the whole path it answers 404, when one matches but has no handler for the method it answers 405, and a malformed escape in a segment gives 400; no other handler is ever invoked.',
 ['inputs','configurations'],'For every set of registered entry points and every request path and method.',
 'Tests register one or two procedures and request their exact paths.',
 ['router','server','misc'],
 [('trie walk per segment with literal before wildcard','Router::route, TrieNode::get_child')],
 [('trie','registered entry points','Router')])

P('C08','Registration never replaces or misplaces a handler',
 'Registering a procedure makes its handler reachable exactly under that procedure\'s own method and all segments of its entry point (constants as constants, variables as wildcards). Registering a second handler for the same entry point and method fails with an error and leaves the first one in place; no other registration is refused.',
 ['histories','configurations'],'For every sequence of registrations.',
 'No test registers a conflicting procedure or more than a few entry points.',
 ['router','server'],
 [('conflict check before the insertion','Trie::insert'),('method and entry point taken from the procedure','RpcServerBuilder::register')],
 [('children/leafs','trie edges and handlers','TrieNode')])

P('C09','Each request yields one response, from its handler or the fitting error',
 'For every request read from a connection the server sends exactly one response, and only then reads the next one from the same connection. The handler is called exactly once, and only with a request that was completely decoded including its body, and its own result is what is sent; a request whose path, query or headers cannot be decoded is answered 400 and an unroutable one with the status of the routing failure, without calling any handler. Only where a body cannot be read, or a response not be encoded or written, does the connection end instead.',
 ['inputs','schedules','histories'],'For every sequence of requests on a connection and every interleaving of readiness events.',
 'The tests send one good request per connection.',
 ['server'],
 [('per-connection state machine','HandleHttpRequest::poll_impl'),('per-procedure pipeline','closure in RpcServerBuilder::register')],
 [('phase','stage of the exchange','HandleHttpRequest')])

P('C10','The request body is fully consumed before the response is started',
 'On every path from reading a request to answering it, whether it succeeds, is not routable, or cannot be decoded, the server has read the request body to its end before it starts the response on that connection, so that leftover body bytes are never taken for the next request.',
 ['inputs','histories'],'For every request, every outcome of routing and decoding, and every handler that reads none or part of the body.',
 'Only visible when a second request follows an unread body on the same connection; no test does that.',
 ['server'],[('read_all_bytes before finish on each branch','HandleHttpRequest::poll_impl, RpcServerBuilder::register')])

P('C11','Response framing announces exactly the body bytes that follow',
 'Every response carries a content length equal to the length of the body that its value provides, and exactly those body bytes are written after its head; a response to a HEAD request carries the same head and no body bytes at all. The connection goes on to the next request only after the whole response was written.',
 ['inputs','histories'],'For every response value and request method, including HEAD.',
 'Tests check a few bodies and no HEAD exchange with several requests.',
 ['server','serializers/rpc_response'],
 [('content length from the body handed on','RpcResponseSerializer::finish'),('body written unless HEAD','HandleHttpRequest::poll_impl')],
 [('method','method of the request being answered','HandleHttpRequest')])

P('C12','A call writes its whole request, then returns the response it reads',
 'A call writes exactly one request, with a content length equal to the length of its body and with exactly that body, to a connection to the intended server; it then reads one response, with its whole body unless the method is HEAD, decodes the response head and hands exactly the received body bytes to the response. It succeeds only if all of these steps did and reports the first failure otherwise.',
 ['inputs','schedules','fault_sequences'],'For every procedure and request value, every readiness interleaving and every point at which the connection may fail.',
 'Tests run the happy path against a well-behaved local server.',
 ['client','serializers/rpc_request'],
 [('four-phase state machine','CallInner::poll'),('content length from the body','RpcRequestSerializer::finish')],
 [('phase','stage of the exchange','CallInner'),('request','request value until it is written','CallInner')])

P('C13','A pooled connection serves only its own address and one call at a time',
 'A pooled call runs either on a pooled connection that was opened to exactly the requested socket address (same IP and port) or on a fresh connection to that address. A connection that is lent out is no longer in the pool, so that no connection ever serves two calls at the same time.',
 ['histories','schedules'],'For every sequence of calls to any addresses through any number of handles.',
 'No test uses the pool at all with two addresses or concurrent calls.',
 ['pool'],
 [('range lookup bounded by address and removal before lending','RpcClientPool::acquire_connection'),('order of the index key','ConnectionId Ord')],
 [('connections','idle connections by address and age','RpcClientPool')])

P('C14','Only a connection that completed its exchange goes back to the pool',
 'A connection returns to the pool only after its call succeeded, that is, its response was completely read and decoded, and it is filed under the address it was opened to. A connection whose call failed, was abandoned or is still in progress is never offered to another call.',
 ['fault_sequences','schedules'],'For every failure point and abandonment of a call and every interleaving.',
 'No test injects a failure into a pooled call.',
 ['pool','client'],
 [('release on the success path only','Call::poll in pool'),('connection taken from the finished response','CallInner::poll')])

P('C15','The pool never keeps more idle connections than its size, dropping the oldest',
 'After every command the pool holds at most the configured number of idle connections. It drops idle connections only when it holds more than that, and then the ones that were returned longest ago, and its age index always lists exactly the idle connections it holds.',
 ['histories','configurations'],'For every pool size (including 0) and every sequence of acquisitions and releases.',
 'No test fills a pool.',
 ['pool'],
 [('eviction loop after each insertion','RpcClientPool::release_connection, drop_exceeded_lru_connections'),('monotone sequence number','RpcClientPool::release_connection')],
 [('lru_queue','idle connections by age','RpcClientPool'),('seq_no','next age stamp','RpcClientPool')])

P('C16','Only failed connects suspend an address, and a suspended one fails fast',
 'An address is suspended when, and only when, connecting to it failed or timed out, for the configured duration from then on. While it is suspended every pooled call to it fails at once without any connection attempt, and once the suspension is over calls to it are attempted again; other addresses are never affected.',
 ['fault_sequences','histories','configurations'],'For every sequence of connect outcomes, addresses and configured durations.',
 'No test makes a connect fail.',
 ['pool'],
 [('suspension set on connect failure','PooledConnection::poll'),('check before acquiring','RpcClientPool::handle_command'),('connect wrapped in the configured timeout','RpcClientPool::acquire_connection')],
 [('blacklist','suspension end by address','RpcClientPool')])

P('C17','The pool answers every acquisition exactly once and never stops',
 'Every acquisition that reaches the pool is answered exactly once, with a connection, a connection attempt or an error, whatever state the pool is in. The pool keeps processing commands in the order they arrive until it is dropped: it never completes, fails or parks while commands are waiting.',
 ['schedules','histories'],'For every interleaving of commands and polls.',
 'Schedules and command orders are not sampled by any test.',
 ['pool'],[('command loop','RpcClientPool::poll'),('one reply per acquire command','RpcClientPool::handle_command')])

P('C18','Nothing a peer sends can crash the client or the server',
 'No request a server receives (any target, query, header or body) and no response a client receives makes this library panic: the outcome is always a response or an error. The same holds for any parameter values a caller passes in its requests.',
 ['inputs','fault_sequences'],'For every byte sequence received from a peer and every request value.',
 'A panic needs one particular malformed input; the tests only send well-formed ones.',
 ['server','router','misc','client','pool','deserializers/url_path','deserializers/url_query','deserializers/http_header','deserializers/rpc_request','deserializers/rpc_response','serializers/url_path','serializers/url_query','serializers/http_header','serializers/rpc_request','serializers/rpc_response','rfc7807'],
 [('errors instead of unwraps on every peer-controlled path','all request and response processing')])

P('C19','Unsafe code cannot cause data races or dangling references',
 'Sharing a server, router or pool among threads never gives two threads unsynchronised access to data that is not safe to share, and no handler is ever used from two threads at once unless its type allows it. Global mutable state is written only inside its one-time initialisation, and no reference to request data is kept beyond the request.',
 ['schedules','programs'],'For every handler type, every number of connections and threads, and every interleaving.',
 'A race or dangling reference shows only under particular schedules, and unsafe code passes every single-threaded test.',
 ['router','misc','server'],
 [('auto traits instead of unsafe impls','Router, handler closure'),('Once-guarded initialisation','parse_relative_url'),('lifetime-extended key used for lookup only','TrieNode::get_child')])

P('C20','Failures are reported as errors of the right kind, never swallowed',
 'Whenever decoding, encoding, parsing or an I/O operation underneath a request or response fails, the operation that needed it fails too and reports an error; success is never reported instead. Errors caused by parameters that are malformed, unsupported or do not fit the procedure are of kind invalid, and failures of the transport (the network, the HTTP layer underneath, timeouts, suspended addresses, the runtime) are of kind other.',
 ['inputs','fault_sequences'],'For every failing step of every operation.',
 'Each failing step would need its own fault-injecting test; the suite has none.',
 ['error','server','client','pool','deserializers/url_path','deserializers/url_query','deserializers/http_header','deserializers/rpc_request','deserializers/rpc_response','serializers/url_path','serializers/url_query','serializers/http_header','serializers/rpc_request','serializers/rpc_response','misc'],
 [('conversion table of error sources','From impls of Error'),('track!(..)? on every fallible step','everywhere')])

P('C21','A problem response says the same status in its head and its body',
 'Every problem response is sent with the status of the problem in its body as HTTP status, also after the problem was replaced, and with the problem+json content type; the body states that status, a title, and the type identifier of its own kind of problem, and a client decodes it back to the same problem. Problems made for a status carry its code and reason phrase, and problems made from an error carry that error\'s text, cause and history.',
 ['inputs','histories'],'For every status, every error and every sequence of problem replacements.',
 'Doc tests show two fixed problems.',
 ['rfc7807'],[('status taken from the problem','ProblemResponse::new, set_problem'),('serde names','Problem, ContentTypeProblemJson')],
 [('status/body','HTTP status and problem','ProblemResponse')])

P('C22','The body-format helpers encode and decode the same format',
 'The JSON, pretty JSON and MessagePack helpers write the value they are given, completely, as text or bytes of their own format, and their decoding side parses that same format from the same representation. Any failure to encode or decode is reported as an error of the surrounding serializer.',
 ['inputs','programs'],'For every value of every serializable type.',
 'No test uses these helpers.',
 ['json','json_pretty','msgpack'],[('paired conversion functions','serialize/deserialize of each module')])

P('C23','A failing connection ends alone; the server keeps accepting',
 'Every accepted connection is served by a task of its own, and whatever goes wrong on it (handshake, malformed request, reset, handler response that cannot be encoded) ends that task only. The server goes on accepting connections after every accepted one, and one that the peer closes between requests ends quietly.',
 ['schedules','fault_sequences','histories'],'For every sequence of connections, failures and readiness events.',
 'No test breaks a connection while another one is being served.',
 ['server'],[('spawn per connection','RpcServer::poll'),('errors logged and dropped at the task boundary','HandleHttpRequest::poll'),('end of stream mapped to a normal end','HandleHttpRequest::poll_impl')])

P('C28','Servers, pools and clients run with the settings they were given',
 'A started server listens on exactly the address its builder was made for, and serves every connection, on the spawner it was given, with the handlers registered with that builder; no other builder method changes that address or drops a handler. A pool has the size it was made with (1024 unless one is given), each setter stores exactly the given duration and changes nothing else, handling commands changes no setting, and everything sent through a handle, a client or a failed connect reaches the pool it came from, for the address the client was made for.',
 ['configurations','histories'],'For every address, size, duration, and order of configuring and use.',
 'Tests use one loopback address and the defaults.',
 ['server','pool','client'],
 [('configuration fields','RpcServerBuilder, RpcClientPool'),('command channel','RpcClientPool::with_pool_size, RpcClientPoolHandle')])

P('C29','Entry points and announced lengths are reported as they are',
 'An entry point consists of exactly the segments it was made from, in their order; a segment counts as a wildcard exactly if it is a variable, and otherwise as its own constant, and the number of variables is that of the whole entry point. The length reported for a request body is the one announced for it, and no length is reported where none was announced.',
 ['inputs','programs'],'For every list of segments and every body.',
 'Tests use one entry point of three segments.',
 ['procedure','lib'],
 [('slice kept by reference','EntryPoint'),('as_option used by codec and router','PathSegment'),('limit of the body reader','content_length')])

P('C24','Decimal text of a float denotes the same bits',
 'The decimal text that is produced for a 32 or 64 bit float parses back to a float with the same bits (NaN payloads excepted).',
 ['inputs'],'For every float.','2^64 values.',
 ['serializers/url_path','serializers/url_query','serializers/http_header'],[('text formatting and parsing of the standard library','ToString / FromStr')])
P('C25','Time limits last as long as configured',
 'A suspension ends and a connect attempt is given up after the configured time, neither earlier nor noticeably later.',
 ['schedules','configurations'],'For every duration and system clock behaviour.','Needs real time and clock changes.',
 ['pool'],[('system clock and timer of the runtime','SystemTime::now, timeout_after')])
P('C26','Pipelined requests and oversized heads are handled without loss',
 'Requests that arrive back to back in one segment are all answered in order, and a head larger than the buffer is refused without losing bytes of later requests.',
 ['inputs','schedules'],'For every segmentation of the byte stream.','Tests send one request at a time.',
 ['server'],[('buffering of the underlying HTTP library','Connection::new(stream, 1024, 8096, 32)')])
P('C27','Every call eventually completes',
 'Every call completes, with a response or an error, as long as its peer answers or the connection fails, however many calls are in flight.',
 ['schedules'],'For every load and fair schedule.','Liveness over unbounded schedules.',
 ['client','pool','server'],[('readiness notification of the runtime','fibers executor and timers')])
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in props: jsonschema.validate(p,s); assert p['statement'].count('. ')<=2,p['id']
print(len(props))
