SETUP = "bash -c '. ./build.sh'"
NOTES = ("Every check builds the analyser in /verif/sa (vendored golang.org/x/tools, Go standard library) and analyses "
         "the type-checked SSA form of /repo's current tree; /repo carries no hooks.")

AI = "abstract interpretation of the SSA form"


def q(over, text):
    return {'over': over.split(), 'text': text}


def a(files, *mech):
    return {'files': files.split(), 'mechanism': [{'name': n, 'where': w} for n, w in mech]}


TRUST = (" Trusts go/types and x/tools go/ssa, the soundness of the interpreter, and its models of the standard "
         "library calls met (listed in the evidence).")

PROPS = [
    dict(id='D01', title='No received byte sequence crashes the decoder or the received message',
         statement='Whatever bytes a peer sends, with any framing and whether or not the stream is ended, decoding '
                   'returns a message or an error and never panics. Every accessor of a decoded message, the decoding '
                   'of its structured data, and its conversion and re-encoding, never panic either.',
         quantifier=q('inputs configurations', 'all byte sequences, framings and end-of-stream flags'),
         why_tests_cant='the tests decode about twenty well chosen frames; the quantifier is every byte sequence a peer can send',
         anchors=a('message-immutable.go priority.go helpers.go transport.go sdata/tokens.go sdata/sd-unknown.go sdata/sd-generic.go sdata/timequality/tq.go sdata/list.go',
                   ('index bounds established by Parse', 'message-immutable.go:Parse'),
                   ('length guards of the token scanners', 'sdata/tokens.go')),
         technique=AI + ': relational numeric, byte-content and heap-shape domains; every runtime-error site is an obligation',
         note='Sound over-approximation of every execution of the decoders from unknown bytes: each index, slice, nil, '
              'assertion, division, makeslice and explicit panic site reached is proved safe.' + TRUST),
    dict(id='D04', title='A received message never changes',
         statement='Once a message has been handed out to the application, nothing writes into the bytes and positions '
                   'it is made of: reading its fields, converting or forwarding it leaves it as received, and so does the goroutine that goes on reading the connection.',
         quantifier=q('inputs histories', 'all messages and all sequences of uses'),
         why_tests_cant='the tests compare fields of a few messages once, none looks at a message again after other calls',
         anchors=a('message-immutable.go helpers.go listener.go sdata/list.go sdata/tokens.go',
                   ('accessors copy what they normalise', 'message-immutable.go')),
         technique=AI + ': effect analysis, the storage reachable from a decoded message is frozen and every store is checked against it',
         note='Every write site reached from the accessors and from re-encoding is shown not to touch storage that '
              'existed when decoding returned; in the reading loop, no write reaches the part of the buffer that a delivered message covers.' + TRUST),
    dict(id='D02', title='Framing splits the received bytes exactly',
         statement='For every buffer and every framing, a complete frame is split off at its first terminator, or at the length its header counts; '
                   'frame, delimiter and rest are exactly the buffer, in order; an incomplete frame is kept, and is reported as incomplete '
                   'at the end of the stream (except for the framing where the end of the stream is a terminator); a decoded frame always '
                   'consumes something.',
         quantifier=q('inputs', 'all buffers, with the stream ended or not, all framings'),
         why_tests_cant='the tests split three hand made buffers; an empty frame, a delimiter at an edge, a count near the end of the buffer are never met',
         anchors=a('transport.go message-immutable.go', ('terminators', 'transport.go:SuffixStrip'), ('counts', 'transport.go:PrefixStrip'), ('consumption', 'message-immutable.go:Parse')),
         technique=AI + ': relations between positions and lengths of slices of the buffer, contents',
         note='Each strip function and Parse are interpreted from an arbitrary buffer; their results are compared with the buffer by position.' + TRUST),
    dict(id='D03', title='What a framing encodes it can decode',
         statement='For every message and every framing, the encoded frame is split off entire, whatever bytes follow it, which are left as they are; '
                   'it holds the bytes of the message, and a terminator inside a message can not cut the frame in two.',
         quantifier=q('inputs', 'all message bytes and all following bytes, all framings'),
         why_tests_cant='no test encodes a message that holds a terminator, nor checks what follows a frame',
         anchors=a('transport.go', ('encoders', 'transport.go:Encode'), ('terminators are escaped', 'transport.go:terminated')),
         technique=AI + ': contents compared by provenance',
         note='Encode and the strip are interpreted one after the other on arbitrary bytes.' + TRUST),
    dict(id='D05', title='A receiver reads each connection to its end and closes it',
         statement='Whatever a peer sends and however its bytes are cut by reads, the goroutine of a connection never panics, always reads with room in its buffer, '
                   'goes on until the connection ends or fails or until there is no next frame, never reads a connection that ended, '
                   'and closes the connection exactly once, after the last result is delivered.',
         quantifier=q('inputs schedules histories', 'all sequences of reads of any length, all bytes, all results of decoding'),
         why_tests_cant='the tests receive short messages that come in one read; the sizes at which the buffer is moved or full are never met',
         anchors=a('listener.go', ('reading loop', 'listener.go:tokenize'), ('buffer moves', 'listener.go:tokenize')),
         technique=AI + ' of the goroutines of a receiver; protocol of the connection as typestate',
         note='The goroutines started by NewReceiver are interpreted with a listener and a connection that do anything their contracts allow; '
              'Parse is cut at its contract, which D01 and D02 establish.' + TRUST),
    dict(id='D06', title='Each received frame is delivered once, in order, without loss',
         statement='The bytes given to the decoder are, each time, all those received and not consumed yet, in order: none lost, none repeated, whatever '
                   'the reads and the moves of the buffer. Each result of the decoder is delivered exactly once, before the next frame is decoded, message and error '
                   'together; an incomplete frame waits for more, and is refused only when it fills the buffer.',
         quantifier=q('inputs schedules histories', 'all cuttings of the stream in reads, all lengths of frames'),
         why_tests_cant='losses need a frame that straddles two reads at the moment the buffer moves, after tens of kilobytes',
         anchors=a('listener.go', ('position of the decoded bytes', 'listener.go:tokenize'), ('pipeline', 'listener.go:Receive')),
         technique=AI + ' of the goroutines of a receiver: the contents of the buffer are compared by provenance with the stream of the peer',
         note='The stream is an arbitrary byte array; the obligations compare the slice given to the decoder with the part of the stream it stands for.' + TRUST),
    dict(id='D07', title='A receiver reports its errors and ends its pipeline once',
         statement='An error of Accept or of a connection is reported, without ever blocking, and no connection is taken from a failed Accept. Each accepted connection '
                   'has exactly one reader. A temporary error does not end the receiver. When it ends, the listener is closed, and the pipeline is closed '
                   'exactly once, after all the readers ended: no reader ever sends on a closed pipeline.',
         quantifier=q('schedules histories faults', 'all sequences of results of Accept and Read, all moments of End'),
         why_tests_cant='no test makes Accept fail, or ends a receiver while connections are open',
         anchors=a('listener.go errors.go', ('accept loop', 'listener.go:runQueue'), ('error channel', 'errors.go:reportError')),
         technique=AI + ' of the goroutines of a receiver: typestate of the pipeline, the listener and the readers; counting of the wait group',
         note='The goroutines are interpreted separately; what they share is the wait group and the channels, followed by typestate.' + TRUST),
    dict(id='D08', title='A well formed message is decoded into its fields',
         statement='A message made of a valid priority, five printable header words separated by spaces, "-" or any structured data elements (quotes, escaped quotes, brackets and '
                   'backslashes in values included), and any text or none, is decoded without error: each accessor returns its own field, whole: the priority its value, '
                   'the timestamp the parse of the second word, then hostname, app-name, procid and msgid; the elements of structured data are parsed one by one, in order, from exactly their bytes; '
                   'the text is all that follows the space after the structured data.',
         quantifier=q('inputs', 'all header words, names, values and texts, for messages without structured data, with up to three elements or two parameters, or with twenty-five bare elements'),
         why_tests_cant='the tests decode the few messages of the RFC; positions must be right for all lengths and contents of the fields',
         anchors=a('message-immutable.go priority.go', ('decoder', 'message-immutable.go:Parse'), ('element scanner', 'message-immutable.go:sdElementEnd'), ('accessors', 'message-immutable.go:ProcID')),
         technique=AI + ' of messages assembled from arbitrary fields; results compared by provenance with the fields',
         note='Header words have up to their RFC length; the words that precede structured data have one character. Up to three elements, and two parameters in an element, are assembled. '
              'What time.Parse and sdata.Parse make of their argument is not analysed here.' + TRUST),
    dict(id='D09', title='What is not a message is refused',
         statement='An empty frame or one with fewer than six spaces, an empty header field, a priority that does not start with "<", is too long, has no digits, a value over 255 or another version than 1, '
                   'structured data that starts with something else than "-" or "[", is not terminated (by an unclosed element or an unclosed quote), or is followed by something else than a space, '
                   'is refused with an error, and gives an empty message.',
         quantifier=q('inputs', 'all bytes in the parts of the frame that are not fixed by each kind of malformation'),
         why_tests_cant='malformed frames come from the network; the tests have a handful of them',
         anchors=a('message-immutable.go priority.go', ('decoder', 'message-immutable.go:Parse'), ('priority', 'priority.go:Unmarshal5424')),
         technique=AI + ' of each kind of malformed frame, made of arbitrary bytes',
         note='Priorities of 192 to 255 are accepted by the code, which is not claimed to be wrong here.' + TRUST),
    dict(id='T01', title='The tokenizers of structured data split their input exactly',
         statement='Each exported tokenizer (of the name of an element, of spaces, of the name and of the value of a parameter) either returns an error with no token, or a token and a rest that are exactly '
                   'the input with its delimiters: the name is what precedes the space or the equal sign, and holds no delimiter; spaces are all skipped, and nothing else is; a value is what is between two quotes, '
                   'escapes included. What is well formed is accepted, whatever follows it.',
         quantifier=q('inputs', 'all bytes, all well formed tokens followed by any bytes'),
         why_tests_cant='the tokenizers are only tested by a few elements, at their first and last positions',
         anchors=a('sdata/tokens.go', ('names', 'sdata/tokens.go:NextSDName'), ('values', 'sdata/tokens.go:NextSDValue')),
         technique=AI + ': positions, lengths and contents compared by provenance with the input',
         note='Values with an escape after other characters are covered for their bounds only; an empty name is not excluded.' + TRUST),
    dict(id='R01', title='The registry never replaces a definition, and is used under its lock',
         statement='Whatever is registered, and whatever the definitions do: the registry is only read while its lock is held and only changed while it is held for writing, the lock is never taken twice and is '
                   'released on every path; a definition is registered under its own name, only when that name is free, and is returned; an element is decoded by the first definition that recognises it, and by no other.',
         quantifier=q('inputs schedules', 'all contents of the registry, all definitions, all goroutines'),
         why_tests_cant='the registry is filled by init functions before any test starts; no test registers and decodes concurrently',
         anchors=a('sdata/list.go', ('registry', 'sdata/list.go:Register')),
         technique=AI + ': typestate of the lock at each use of the map, definitions cut at their contract',
         note='The registry is recognised as a map to SDID, its lock as one of package sync.' + TRUST),
    dict(id='R02', title='A TimeQuality is coherent, and survives its encoding',
         statement='No bytes are decoded to a TimeQuality that is synchronised without a known time zone, or has an accuracy without being synchronised; what is decoded can be encoded. An incoherent TimeQuality is refused, '
                   'and nothing is encoded; a coherent one is encoded as its fields, with the value of its accuracy. Elements of another name, unknown parameters and values other than 0 and 1 are refused.',
         quantifier=q('inputs', 'all bytes, all values of the fields'),
         why_tests_cant='a dozen elements are tested',
         anchors=a('sdata/timequality/tq.go', ('coherence', 'sdata/timequality/tq.go:IsValid'), ('decoding', 'sdata/timequality/tq.go:Found')),
         technique=AI + ' from any bytes and any fields',
         note='The conversions of package strconv are cut at their contract; the accuracy that is decoded is only followed for one text.' + TRUST),
    dict(id='R03', title='A list of structured data is encoded as its elements, and lists share nothing',
         statement='Adding elements to a list gives a list with the same elements followed by the new ones, in order, and leaves every other list as it was, whatever lists were made from the same one before. '
                   'A list is encoded as its elements in order, as "-" when it has none, and as an error and nothing else when one of them can not be encoded.',
         quantifier=q('inputs histories', 'all elements and the results of their encoding, lists made from a common one'),
         why_tests_cant='two lists made from the same one, with spare capacity, are needed to see them share elements',
         anchors=a('sdata/list.go', ('lists', 'sdata/list.go:Add')),
         technique=AI + ': contents and aliasing compared by provenance',
         note='Lists of up to four elements.' + TRUST),
    dict(id='R04', title='An element nobody recognises is kept as it is',
         statement='A well formed element that no registered definition recognises, whatever its name, the names and values of its parameters and the escapes in them, is decoded, and is encoded again as it was received. '
                   'A generic element that was decoded without parameters can be encoded again.',
         quantifier=q('inputs', 'all names and values of elements of up to two parameters'),
         why_tests_cant='three elements are tested; a relay must keep what it does not understand',
         anchors=a('sdata/sd-unknown.go sdata/sd-generic.go sdata/list.go', ('unknown elements', 'sdata/sd-unknown.go:Found')),
         technique=AI + ': contents compared by provenance',
         note='Registered definitions are assumed not to recognise the element.' + TRUST),
    dict(id='S01', title='A Sender is free of data races',
         statement='Any number of goroutines may call Send while the goroutine of the Sender connects, writes and fails: each piece of state that one goroutine '
                   'changes and another one touches, the elements of the queue included, is only accessed while the lock of the Sender is held.',
         quantifier=q('schedules histories faults', 'all interleavings of any number of callers with the goroutine of the Sender, all results of Connect and Write'),
         why_tests_cant='a race shows for particular interleavings only; the tests have one sender and a server that never fails',
         anchors=a('connector.go', ('lock', 'connector.go:Send'), ('writer', 'connector.go:flushQueue')),
         technique='lockset analysis over an ' + AI + ' of every goroutine and method',
         note='Cells are discovered by interpretation (no field names are assumed); an access without the lock is an alarm when another goroutine writes the cell.' + TRUST),
    dict(id='S02', title='No message accepted by a Sender is lost, repeated or reordered',
         statement='Send returns nil exactly when it queued the encoded message, once, after those queued before. Whatever fails and whoever else sends, the goroutine of '
                   'the Sender writes queued messages in order and only takes off those written whole: a message cut by a failure is sent again from its '
                   'first byte on the next connection, none is skipped, sent twice or mixed with another. No message is refused while the Sender is running, unless it can not be encoded.',
         quantifier=q('schedules histories faults', 'all interleavings, all results of Connect and Write, partial writes of any length included'),
         why_tests_cant='needs a connection that breaks in the middle of a message while messages are queued; the tests have no such failure',
         anchors=a('connector.go', ('queue', 'connector.go:Send'), ('what was written is taken off', 'connector.go:unsent')),
         technique=AI + ': the queue is compared by provenance with a ghost queue, under interference of the other goroutines',
         note='For any number of messages the queue is shown to change by appends and suffixes only; exactly which suffix is left by a partial write is decided with the '
              'lengths of up to 3 (thorough: 5) queued messages symbolic. Assumes that a write refused with ENOBUFS sent no part of a message.' + TRUST),
    dict(id='S03', title='Sending never waits for the network longer than a write',
         statement='The lock that Send takes is never held while the Sender connects or waits for its ticker or its end, it is released on every path and never taken twice, and to report an error never blocks, '
                   'whether or not the application reads the channel of errors.',
         quantifier=q('schedules histories faults', 'all paths of all methods and of the goroutine, all results of Connect and Write'),
         why_tests_cant='needs a server that hangs, or an application that ignores errors',
         anchors=a('connector.go errors.go', ('lock', 'connector.go:flushQueue'), ('offer of errors', 'errors.go:reportError')),
         technique='typestate of the lock over an ' + AI,
         note='The lock, the channels and the connector are followed on every path of the interpretation.' + TRUST),
    dict(id='S04', title='A Sender drops a failed connection, once, and reports it',
         statement='Each failure of Connect or of a write (except a transient lack of buffers) is reported once, with the error of the connection; a connection that failed is closed exactly once '
                   'and never used again; a new one is only made when there is none, and only by the goroutine of the Sender.',
         quantifier=q('histories faults', 'all sequences of results of Connect and Write'),
         why_tests_cant='no test makes a connection fail',
         anchors=a('connector.go', ('connection', 'connector.go:flushQueue')),
         technique='typestate of the connection over an ' + AI,
         note='The connector and its connections do anything their contracts allow; writes through net.Buffers follow its contract.' + TRUST),
    dict(id='S05', title='End writes what was accepted, then ends the Sender for good',
         statement='End returns only when the goroutine of the Sender has ended: what Send accepted is written, unless a fresh connection could not be made or took nothing; the connection is closed; the channel of errors is closed, once, '
                   'and no error is offered after. Once the Sender ends, Send refuses every message with ErrBufferClose, and none is accepted that will not be attempted.',
         quantifier=q('schedules histories faults', 'all moments of End among the calls of Send and the failures'),
         why_tests_cant='the tests end senders that have nothing to send, or whose server is healthy',
         anchors=a('connector.go', ('end', 'connector.go:runQueue'), ('end', 'connector.go:End')),
         technique='typestate of the end of the Sender over an ' + AI,
         note='That End terminates is a liveness property and is not decided here; a second End is a known finding.' + TRUST),
    dict(id='M01', title='Every header field sent is well formed',
         statement='Whatever strings the application gives to the constructors and setters of a message, to New, to SubSyslog '
                   'and to the channels and those they derive, and whatever the name of the host, the hostname, app-name, procid '
                   'and msgid of the encoded message are not empty, hold only the bytes 33 to 126, and have at most 255, 48, 128 '
                   'and 32 bytes: no argument can forge another field or frame.',
         quantifier=q('inputs configurations histories', 'all arguments, all constructors and setters, channels derived in every supported way'),
         why_tests_cant='the tests use a few short ASCII names; the property is about all strings, through every way a name can enter a message',
         anchors=a('message.go helpers.go channel.go syslog.go',
                   ('validators', 'helpers.go:validatorGeneric'), ('unvalidated constructor', 'message.go:forgeMessage'),
                   ('composition of app-names', 'channel.go:AppName'), ('composition of app-names', 'syslog.go:SubSyslog')),
         technique=AI + ': numeric and byte-content domains, obligations on each field of the encoded bytes',
         note='Each constructor, setter and channel is interpreted from arbitrary arguments up to the encoded bytes. The structured data is '
              'a contract (M05). Derivations are covered up to depth two; the validated state they start from is arbitrary.' + TRUST),
    dict(id='M02', title='A setter of a message changes its field and nothing else',
         statement='Each setter returns a message whose other fields are those of the original, and whose field is the argument: '
                   'stored as is when legal, the time formatted as RFC5424TimeStamp, the text without its trailing white space. '
                   'StructuredData appends its arguments to the elements of the message. No other message is changed, not even one made from the same original.',
         quantifier=q('inputs', 'all messages and arguments'),
         why_tests_cant='the tests build a few messages; a swapped or forgotten field shows only for particular values and setters',
         anchors=a('message.go', ('positional construction', 'message.go:Message')),
         technique=AI + ': contents of the encoded fields compared by provenance',
         note='Each setter is applied to an arbitrary message, and the fields of both encodings are compared.' + TRUST),
    dict(id='M04', title='A message is encoded with the layout of RFC 5424',
         statement='The encoding of a message is "<" PRI ">1", the timestamp, the hostname, the app-name, the procid, the msgid and the '
                   'structured data, separated by single spaces, then a space and the text if there is one; each part is the field of the '
                   'message, PRI is the decimal number of any priority in 0..191 without leading zero.',
         quantifier=q('inputs', 'all messages'),
         why_tests_cant='the tests compare the encoding of a handful of messages; a branch of the encoder, a priority or an empty part may be wrong',
         anchors=a('message.go priority.go', ('encoder', 'message.go:Marshal5424'), ('decimal encoder', 'priority.go:Marshal5424')),
         technique=AI + ': contents of the encoded bytes compared by provenance',
         note='The encoding of an arbitrary message is compared part by part with its fields.' + TRUST),
    dict(id='M06', title='Priorities keep their value through encoding, names and parts',
         statement='Every priority in 0..191 is encoded, decoded to itself, and is the union of its facility (a multiple of 8) and its severity. '
                   'Set accepts the name that String gives to each named priority and yields that priority. A refused encoding or name leaves the '
                   'priority unchanged, an accepted one gives a value in range. What is not a priority is not encoded as another one.',
         quantifier=q('inputs', 'all priorities, all byte sequences and all names'),
         why_tests_cant='the tests try a few priorities; the refusals concern every string and byte sequence',
         anchors=a('priority.go', ('tables', 'priority.go:facilityString'), ('encoder', 'priority.go:Marshal5424'), ('decoder', 'priority.go:Unmarshal5424')),
         technique=AI + ': numeric and byte-content domains; the tables are evaluated abstractly',
         note='The priority is symbolic in 0..191 for encoding, decoding and parts; the 160 named priorities are enumerated by the interpreter.' + TRUST),
    dict(id='M07', title='Channels filter by severity and stamp their attributes',
         statement='For every threshold, Channel(s) is live exactly when s is at most the threshold, in a Syslog and in those it derives. A discarded '
                   'channel, and what it derives, never sends. A live channel, and what it derives, sends exactly one message per Write or Log, '
                   'with its facility and severity, the hostname and the procid of its Syslog, its app-name (app/sub when derived) and its msgid, '
                   'the text written or logged, without trailing white space, and the structured data given to Log, in order.',
         quantifier=q('inputs configurations', 'all thresholds, severities, facilities and legal names'),
         why_tests_cant='the tests use one threshold; an off by one filter or a lost attribute shows for other combinations',
         anchors=a('syslog.go channel.go', ('severity table', 'syslog.go:Channel'), ('derived channels', 'channel.go:AppName')),
         technique=AI + ': exact numeric relations for the filter, provenance of the attributes at the call of Send',
         note='Threshold and severity are symbolic in 0..191; the attributes are compared with those of the message given to Send.' + TRUST),
    dict(id='M09', title='Writing in a channel honours io.Writer',
         statement='Write returns the length of its argument and no error exactly when Send accepted the message, else 0 and the error of Send. '
                   'It never modifies the bytes it is given.',
         quantifier=q('inputs configurations', 'all bytes, all outcomes of Send, all kinds of live channels'),
         why_tests_cant='in the tests Send never fails in a Write and nobody looks at the buffer again',
         anchors=a('channel.go', ('writer', 'channel.go:Write')),
         technique=AI + ': outcomes of Send enumerated, effect analysis on the caller\'s bytes',
         note='Send is replaced by a function that fails with an arbitrary error or succeeds.' + TRUST),
    dict(id='N01', title='A connector gives a connection to what was asked for, or an error',
         statement='For every network, address and result of resolving and dialing, Connect gives either a usable connection or an error, never both nor a nil connection; '
                   'it dials only the network, address and port asked for (514 when none is given; both local networks, until one answers, when none is named); '
                   'no connection made is leaked, no lookup is waited for without limit; closing what it gave closes the connection made, and never the standard streams of the process. '
                   'A network or stream that does not exist is an error.',
         quantifier=q('inputs configurations faults', 'all addresses, all networks, all results of the calls of the package net'),
         why_tests_cant='the tests connect to healthy local servers; partial failures, several addresses and reconnections are never met',
         anchors=a('connector-tcp.go connector-local.go connector-local_unix.go connector-fd.go connector-invalid.go', ('dialing', 'connector-tcp.go:Connect'), ('guess', 'connector-local_unix.go:osGuessConnnector')),
         technique=AI + ' against contracts of the package net: typestate of the connections, provenance of what is dialed',
         note='The calls of net, os and context are replaced by contracts with every outcome. The names that are no network are covered by classes: longer than the known ones, other first letters, and a list of look-alikes.' + TRUST),
    dict(id='N02', title='One message is one datagram',
         statement='What a connector gives for a datagram socket hands each message to the socket by exactly one write, whole, and reports what the socket reported; several queued messages are never merged in one datagram. '
                   'The streams also get each message once, as it is.',
         quantifier=q('inputs configurations', 'all messages, all ways to get to a datagram socket (asked for or guessed)'),
         why_tests_cant='merging only happens when several messages are queued at a flush, and shows only in how the datagrams are cut',
         anchors=a('connector-local.go', ('wrapper', 'connector-local.go:localWriteCloser')),
         technique='method sets of the values returned, found by ' + AI,
         note='net.Buffers writes at once to a writer that has the unexported method writeBuffers of package net: the dynamic type of each datagram connection is shown to lack it.' + TRUST),
    dict(id='N03', title='Dial honours the network, transport and delay asked for',
         statement='For every known network Dial gives a Sender whose connector goes to that network and address, with the transport of the caller or, without one, the common one of the network (LF for stdio and TCP, zero for local sockets), '
                   'and whose queue is flushed with exactly the delay asked for, or not at all when it is at most a millisecond. An unknown network is an error, and starts nothing.',
         quantifier=q('inputs configurations', 'all networks, addresses, transports and delays'),
         why_tests_cant='the tests use a few combinations',
         anchors=a('dialer.go', ('table', 'dialer.go:Dial')),
         technique=AI + ': provenance of what is given to NewSender, then of what its connector dials',
         note='NewSender is cut at its call: S01-S05 are about it.' + TRUST),
    dict(id='N04', title='Listeners remove nothing but a socket that is in the way, and leak nothing',
         statement='A listener removes the file at its address only after listening failed because the address is in use, and only when it is itself a socket (not a link to one). '
                   'To listen and to accept give either a usable value or an error, for what was asked for; nothing that was opened is dropped unclosed, and Close closes the listener.',
         quantifier=q('inputs configurations faults', 'all addresses, all results of listening, of looking at the address and of accepting'),
         why_tests_cant='the tests listen at fresh addresses',
         anchors=a('listener-unix.go listener-unixdgram.go listener-tcp.go listener-guess.go', ('removal', 'listener-unix.go:UnixListener')),
         technique=AI + ' against contracts of the packages net and os: typestate of the address and of the listeners',
         note='Removing a socket that a live server listens to is documented behaviour, and is not excluded.' + TRUST),
    dict(id='N05', title='A datagram listener gives every received byte once, in order',
         statement='A datagram listener accepts one connection, and no other until it is closed. Whatever the lengths of the datagrams and of the reads, reading it gives the bytes of the datagrams in order, none lost, none repeated; '
                   'an error of the socket is reported as it is, with no byte.',
         quantifier=q('inputs histories faults', 'all sequences of datagrams (up to 64 KB each) and of reads of any length'),
         why_tests_cant='a loss needs a datagram longer than the room that is left in the buffer of the reader',
         anchors=a('listener-unixdgram.go', ('reads', 'listener-unixdgram.go:Read')),
         technique=AI + ': contents compared by provenance with the datagrams, as an invariant of any number of reads',
         note='Datagrams longer than the 64 KB buffer are cut by the kernel: out of the assumption.' + TRUST),
    dict(id='X01', title='Encoding then decoding a message gives the same message',
         statement='A message built with valid fields, sent and received over any framing, is received with the same fields.',
         quantifier=q('inputs', 'all messages'),
         why_tests_cant='a handful of messages are compared',
         anchors=a('message.go message-immutable.go', ('layout', 'message.go:Marshal5424')),
         na='full round-trip equality relates unbounded runtime values of two programs (time formatting and parsing included); '
            'the clauses visible in the code (layout, framing agreement, field safety) are claimed by other properties'),
]
