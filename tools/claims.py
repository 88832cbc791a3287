T = 'path-sensitive typestate/dataflow rules over SSA'
CL['C11'] = (T, 'Every path of the coalescing queue API, from any reachable field state, is checked against the FIFO/duplicate/close obligations; lock discipline is checked on every access. Assumes the library models (sync, channels).')
CL['C02'] = (T, 'Every path of Cache.GnmiUpdate is followed; each unit (update, atomic group, delete) must fall in the timestamp outcome table. Assumes the path tree meets C09.')
CL['C03'] = (T, 'Every path of Cache.GnmiUpdate: what is stored, what is fed, and in which order; the caller\'s message is restored on every exit. Quiescent equality itself is not decided, only these per-path obligations.')
CL['C04'] = (T, 'Typestate of one Subscribe RPC over its handler and goroutines: register before reading, one sync marker after the snapshot, newest value at send. Convergence is reduced to these obligations plus C03, C06, C11.')
CL['C05'] = (T, 'Typestate of one Subscribe RPC: every subscription path is read once per request or trigger, each visited leaf queued, then the sync marker, then (ONCE) the close. Assumes C09 for the query itself.')
CL['C07'] = (T, 'Typestate of one Subscribe RPC: gate before anything is started for a single target, verdict of the response\'s own target before each send, nothing withheld otherwise.')
CL['C08'] = (T + '; call-graph rule for blocking operations', 'Every send is covered by a watched timer, nothing waits under locks or in cache queries, and nothing reachable from accepting an update waits for another goroutine. Latency bounds themselves are not decided.')
CL['C14'] = (T, 'Every path of Cache.GnmiUpdate only touches the tree of the target it names; lifecycle operations are checked likewise.')
CL['C15'] = (T, 'Counter conservation on every path of Cache.GnmiUpdate, and guarded access to shared target state.')
CL['C13'] = (T, 'Typestate of one target session over Add, its monitoring goroutine and the goroutines it starts, for every outcome of dial, send, receive, timers and contexts; Remove, Reconnect and Add against the table of targets. Assumes the library models (context, timer, backoff).')
CL['C16'] = (T, 'Typestate of one connection entry over request, dial goroutine and release, plus the holder\'s side in manager: released exactly once after its last use. Assumes library semantics.')
CL['C18'] = (T, 'ReconnectClient, BaseClient, getFirst, CacheClient and the gNMI and fake implementations are followed on every path, a concurrent Close being any other critical section. Termination is decided as: latch and cancel handed over in one critical section, wait only after cancel and inner close, every blocking call given a context derived from the one Close cancels, every producer hands on or closes. Assumes implementations return from Recv and connect when closed or cancelled, and user callbacks return.')
CL['C17'] = (T, 'Validate, Load, the constructors and Current are followed on every path for an arbitrary but fixed target name and the request names it uses, in every combination of presence in the old and new configuration. Assumes proto semantics and that handlers do not change their arguments or call back.')
CL['C09'] = (T, 'Every tree operation is followed for an arbitrary node, child and shape of the remaining path, recursion being the induction hypothesis; selection by Query, walks, Delete and lookups against one table. Assumes values are not of the branch type and callbacks leave the tree alone.')
CL['C10'] = (T + '; lock-order and lock-coupling rules', 'Same exploration, judged by the lock discipline: guarded access, coupling from parent to child, no re-entry, re-check after the lock exchange, exclusive deletes. Linearizability follows by argument from these and C09, it is not decided separately.')
CL['C19'] = (T, 'All input shapes of ToStrings, CompletePath, the client query conversion, FromScalar, ToScalar and Equal, with an arbitrary key of each key map, all Go types, all arms and all pairs of arms. What ygot.StringToPath does with the escaped string is assumed; backslashes, brackets and blanks in query elements are outside (known limitation of the string form).')
CL['C06'] = (T, 'The subscription trie is followed for an arbitrary node, client and child, recursion being the induction hypothesis; matching, registration, removal, the set of clients already offered a notification, and the registration of a Subscribe call. Comparison with queries rests on C09.')
CL['C12'] = (T + '; panic-site obligations', 'Every index, slice, dereference, assertion, division and map write in functions a received message can reach must be excluded on every path; a rejected update changes nothing stored. Library calls are assumed not to panic; nil callback messages, time and connection state are outside.')
CL['C01'] = (T, 'The relay is cut into stages (session, stamp, ingest, feed, match, stream, decode, client cache, display); every path of each stage must hand on what it received, and the rules of the properties behind each stage are run with it. End-to-end equality follows from the stages, it is not decided separately.')
NA['C20'] = 'the generator lives under testing/, whose files count as test files here and can be neither repaired nor planted in; the values it must keep in range are products of a runtime random source that no static argument in reach bounds'
