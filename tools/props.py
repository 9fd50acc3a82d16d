#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing the table)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

I, S, H, F, C = "inputs", "schedules", "histories", "fault_sequences", "configurations"

# id, title, statement, over, quantifier text, why tests can't, files, mechanisms [(name, where)]
PROPS = [
    ("C01", "Bit stream reading and writing are exact inverses",
     "A sequence of bit fields, integers and raw bytes written to the wire stream is laid out most significant "
     "bit first and reads back to the same values in the same order. Reading past the end of the data raises an "
     "end-of-data error and never returns made-up or wrong bytes, and peeking never moves the position.",
     [I],
     "all values of all fields, all field sequences up to the bound, all cut points",
     "Tests read a handful of hand-picked bytes; a carry between adjacent fields, a sign or an off-by-one at "
     "the end of the data shows only for other values or field orders.",
     ["pyzwave/types.py"],
     [("bit stream reader", "types.BitStreamReader"),
      ("bit stream writer", "types.BitStreamWriter"),
      ("typed fields", "types.int_t and friends")]),
    ("C02", "A composed message decodes to an equal message",
     "For every message with a fixed layout and every assignment of in-range field values, whether given to the "
     "constructor or assigned afterwards, composing the message and decoding the bytes gives a message of the same "
     "type, equal to the original, with every field unchanged.",
     [I], "all field values of every message type of every command class",
     "Tests compose or decode one sample for some of the messages; a field that is only right for that sample passes.",
     ["pyzwave/message.py", "pyzwave/types.py", "pyzwave/commandclass", "pyzwave/util.py"],
     [("generic codec", "message.Message.compose / decode / parse"), ("attribute typing", "attributes")]),
    ("C03", "Frames follow the Z-Wave protocol layout",
     "Every message is encoded to, and decoded from, exactly the bytes the Z-Wave and Z/IP protocol prescribes: "
     "command class, command, then each field at its prescribed bit position, width, sign and byte order. "
     "Reserved bits never influence decoded fields and are sent as zero.",
     [I],
     "all field values and all reserved-bit values of every message type, against an independent layout table",
     "Encoding and decoding can agree with each other and still be wrong on the wire; tests pin one sample of "
     "some messages.",
     ["pyzwave/message.py", "pyzwave/types.py", "pyzwave/commandclass"],
     [("message declarations", "attributes of the classes in pyzwave/commandclass"),
      ("registration by id", "message.ZWaveMessage, commandclass.ZWaveMessage decorators")]),
    ("C04", "A received frame composes back to itself",
     "Any complete received frame of a known message can be composed again, and the result is the received frame, "
     "apart from reserved bits which may be cleared.",
     [I], "all frames of every message type, reserved bits included",
     "No test recomposes decoded frames with arbitrary content.",
     ["pyzwave/message.py", "pyzwave/types.py", "pyzwave/commandclass"], [("generic codec", "message.Message.compose")]),
    ("C05", "Decoding truncated or arbitrary bytes fails only in the declared way",
     "Decoding any byte string either gives a message or raises the end-of-data error; no other error escapes "
     "and decoding always ends. A message id that is not known gives an unknown message carrying its command "
     "class and command id. Fields that are completely present in a truncated frame are decoded correctly.",
     [I],
     "all payload bytes of every message id up to the length bound, all cut points of complete frames",
     "A crash on hostile or truncated input needs the one byte value no sample uses.",
     ["pyzwave/message.py", "pyzwave/types.py", "pyzwave/commandclass"],
     [("decoding", "message.Message.decode"),
      ("unknown messages", "message.UnknownMessage")]),
    ("C06", "Arbitrary datagrams never break a connection or the gateway",
     "Any datagram that arrives from the network, decodable or not and from any sender, is handled without an "
     "error escaping into the event loop, and a datagram that does not acknowledge an outstanding request "
     "leaves that request undisturbed: it is still answered by its own acknowledgement. Afterwards the "
     "connection works as before.",
     [I, H],
     "all datagram bytes up to the bound on the gateway, node and unsolicited ports, with and without an "
     "outstanding request",
     "Tests feed a few malformed packets; the failing packet is one of many combinations of flags, header and "
     "payload.",
     ["pyzwave/connection.py", "pyzwave/zipconnection.py", "pyzwave/zipgateway.py", "pyzwave/application.py"],
     [("packet entry", "zipconnection.ZIPConnection.onPacket"),
      ("unsolicited entry", "zipgateway.ZIPGateway.onUnsolicitedMessage")]),
    ("C07", "A send ends with exactly its own acknowledgement",
     "A send through a Z/IP connection reports success exactly when a positive acknowledgement carrying its own "
     "sequence number arrives in time, and failure otherwise, also when it is refused, whatever other packets "
     "arrive before. Requests that are outstanding at the same time never take each other's acknowledgement, "
     "and a finished or cancelled request leaves nothing behind: its number is free again.",
     [I, S, H],
     "all arrival orders, times and flag/sequence values of up to the bounded number of acknowledgements, up to "
     "the bounded number of concurrent sends, cancellation at any point",
     "Tests drive one send and one acknowledgement; matching errors need overlapping requests, coinciding "
     "timers or stale sequence numbers.",
     ["pyzwave/adapter.py", "pyzwave/zipconnection.py"],
     [("ack bookkeeping", "adapter.Adapter.waitForAck / ackReceived"),
      ("send", "zipconnection.ZIPConnection.send")]),
    ("C08", "Requests to sleeping nodes wait as long as the gateway announces",
     "When the gateway announces that a request is queued for a sleeping node, the request does not time out "
     "before the announced delay plus one minute has passed, one minute if it announces no delay, three minutes "
     "if the announced delay is negative; each later announcement starts the wait anew. After that time without "
     "an acknowledgement the request fails, and an acknowledgement before it succeeds.",
     [I, S],
     "all announced delays (24 bit, signed), all arrival times of announcements and of the acknowledgement",
     "Tests patch the timer and use one delay; boundary times and repeated announcements are not sampled.",
     ["pyzwave/adapter.py", "pyzwave/zipconnection.py", "pyzwave/commandclass/Zip.py"],
     [("queued acknowledgements", "adapter.Adapter.ackReceived nackWaiting")]),
    ("C09", "Sequence numbers stay one byte and distinct while outstanding",
     "Consecutive Z/IP packets and network management commands carry sequence numbers that fit one byte and "
     "advance by one, wrapping at 256, so that a command can always be sent however many were sent before. A "
     "number that is still waiting for its acknowledgement is not given to a new packet.",
     [I, H],
     "all counter values, all sets of outstanding numbers up to the bound",
     "Tests send a few commands from a fresh object; the counters wrap after 256.",
     ["pyzwave/zipconnection.py", "pyzwave/zipgateway.py"],
     [("packet counter", "zipconnection.ZIPConnection.send"),
      ("network management counter", "zipgateway.ZIPGateway network management methods")]),
    ("C10", "A request is answered by the report it asked for",
     "A request that expects a report returns the first report of the awaited kind that arrives after it was "
     "sent, each report answering one request, the one waiting longest first; it fails with a timeout when no "
     "report comes in time, and for a node also when the command could not be delivered. Reports nobody waits "
     "for are never swallowed: listeners get them. Neither concurrent, failed, timed-out nor cancelled requests "
     "disturb other requests or later reports.",
     [I, S, H],
     "all interleavings of up to the bounded number of requests, reports, failures, timeouts and cancellations",
     "Tests run one request at a time; leaks and stolen replies need two, or a failure followed by a report.",
     ["pyzwave/adapter.py", "pyzwave/node.py"],
     [("sessions", "util.MessageWaiter"),
      ("adapter requests", "adapter.Adapter.sendAndReceive"),
      ("node requests", "node.Node.sendAndReceive")]),
    ("C11", "Every listener hears every event exactly once, in isolation",
     "An event is delivered exactly once, with its arguments, to every listener registered at that time that "
     "handles it, in order of registration (synchronous and asynchronous ones each among themselves) and whatever the "
     "other listeners do: raise, be synchronous or "
     "asynchronous, or not handle it. Whoever asks gets back the results of the listeners that answered, in "
     "order.",
     [I, S],
     "all sets of up to the bounded number of listeners with any combination of behaviours and symbolic results",
     "Tests register one listener that behaves.",
     ["pyzwave/util.py"],
     [("dispatch", "util.Listenable.speak / ask")]),
    ("C12", "Supervised commands are acknowledged with the outcome of handling",
     "A command that arrives wrapped for supervision is handled exactly once as if it had come alone, and "
     "exactly one report is returned to its sender with the same session id, stating success (0xFF) if the "
     "command was handled and no-support (0x00) if not, also when its handler fails. Commands that are not "
     "supervised, and truncated supervision messages, produce no such report.",
     [I, H],
     "all session ids and flags, handled and unhandled commands, handlers that raise",
     "Tests check one session id.",
     ["pyzwave/commandclass/Supervision.py", "pyzwave/node.py"],
     [("supervision", "node.supervision"),
      ("messages", "commandclass.Supervision")]),
    ("C13", "A node routes each message to the right place and knows its own classes",
     "The information frame of a node, of any content, yields exactly its supported, controlled and secure "
     "command classes. A message from a node completes the request waiting for it if there is one, is offered "
     "to the supported command class it belongs to, and reaches the listeners of the node exactly once if "
     "neither took it; it never reaches another node or endpoint.",
     [I, H],
     "all information frames up to the length bound, all message types and node ids up to the bound",
     "Tests use one or two fixed information frames and messages.",
     ["pyzwave/node.py", "pyzwave/application.py"],
     [("information frame", "node.Node.__init__"),
      ("routing", "node.Node.handleMessage, application.Application.messageReceived")]),
    ("C14", "Changes to stored attributes are written exactly when there are changes",
     "Every change of persistent state is announced for storage. Under the storage lock that happens exactly "
     "once, when the outermost lock is released, also when the body raises, and nothing is announced when nothing "
     "was updated; nested or overlapping locks neither lose changes nor announce early. Without a lock a change is "
     "announced when it is made, during an interview at the latest when the interview ends, completed or not.",
     [H, F],
     "all nestings and orders of up to the bounded number of locks, changes and failures",
     "Tests use a single flat lock.",
     ["pyzwave/node.py", "pyzwave/commandclass", "pyzwave/application.py"],
     [("storage lock", "node.Node.storageLock")]),
    ("C15", "A saved network is restored as it was",
     "Saving a node and loading what was saved into a node with the same command classes restores, for every "
     "supported class, its version, interview state and data equal to what was saved, also through the YAML "
     "file where all scalars become text.",
     [I, C],
     "all attribute values within their types, interviewed or not, classes with and without data",
     "Tests round-trip almost nothing and stub the file.",
     ["pyzwave/persistantstorage.py", "pyzwave/util.py", "pyzwave/node.py", "pyzwave/commandclass"],
     [("state", "util.AttributesMixin.__getstate__ / __setstate__"),
      ("file", "persistantstorage.YamlStorage")]),
    ("C16", "Interviews ask what the version allows and finish only when answered",
     "A command class is marked as interviewed only after its interview ran to its end; an interview that times "
     "out leaves it unmarked and does not stop the interview of other classes. The version stored for a class "
     "is the one the node reported for that class, whatever other version reports arrive, and a sensor is asked "
     "for its supported types only from version 5 on.",
     [I, F],
     "all reported versions, failure or silence at each step",
     "Tests cover the successful interview with fixed answers.",
     ["pyzwave/commandclass", "pyzwave/node.py"],
     [("interview", "commandclass.CommandClass.interviewDecorator"),
      ("version", "commandclass.CommandClass.requestVersion")]),
    ("C17", "Unsolicited messages are attributed to the node that sent them",
     "A command that reaches the unsolicited port is delivered exactly once, attributed to the node whose "
     "address it came from, with its endpoint, and to no other node; one from an address no node has is not "
     "delivered. Its acknowledgement, with the same sequence number, is returned to its sender exactly "
     "when a known sender requested one.",
     [I, H],
     "all sender addresses, flags, sequence numbers, endpoints, known and unknown senders",
     "Tests use one known address.",
     ["pyzwave/zipgateway.py", "pyzwave/connection.py"],
     [("unsolicited", "zipgateway.ZIPGateway.onUnsolicitedMessage")]),
    ("C18", "The gateway's node list follows the reports of the controller",
     "After each node list report the set of known nodes is exactly the reported one: new nodes are asked for "
     "their addresses, which are then used to attribute messages, nodes that stayed keep theirs, removed ones "
     "are forgotten, and the application is told once per report; a node that does not answer does not keep the "
     "others from being handled.",
     [I, H, F],
     "all node list bit masks over the bounded ids, from any previous set, any node silent",
     "Tests use one list and answers that always come.",
     ["pyzwave/zipgateway.py"],
     [("node list", "zipgateway.ZIPGateway.__handleNodeListReport__")]),
    ("C19", "The application's nodes follow the adapter's node list",
     "After a node list update the application has exactly one node object per listed id (and endpoint), with "
     "the device classes and command classes its information frame gave, keeps the objects of nodes that "
     "stayed, and announces each added and each removed node once, also when updates overlap.",
     [I, H],
     "all id sets over the bound, all previous sets, information frames with arbitrary bytes",
     "Tests add and remove one node.",
     ["pyzwave/application.py"],
     [("sync", "application.Application.nodeListUpdated and friends")]),
    ("C20", "The mailbox keeps each message until it is delivered, in order",
     "Messages queued for sleeping nodes are handed back in the order they came, each exactly once, only for "
     "the queue they were pushed to, and a message whose delivery fails is kept for the next wake-up; every "
     "push of a new message is answered as waiting, a duplicate of a waiting message is not queued again, the next message is handed "
     "out only once it is known whether the one before arrived, and the last message of a queue is marked as last.",
     [I, H, F],
     "all sequences of pushes, wake-ups, pops and failures up to the bound, all handles and payload bytes",
     "Tests push and pop a single message.",
     ["pyzwave/mailbox.py", "pyzwave/commandclass/Mailbox.py"],
     [("mailbox queue", "mailbox.MailboxService")]),
    ("C21", "Waiting mailbox entries are kept alive on schedule",
     "While a message waits in the mailbox a heartbeat message is sent to the node it came from a minute after its push was "
     "answered and a minute after each heartbeat ended, every tenth being a ping, until the message is delivered and not after, "
     "also after heartbeats that failed in whatever way, and only once however often the message is pushed.",
     [S, H],
     "all times and orders of pushes, wake-ups and failing sends within the bound",
     "Tests patch the clock and look at one round.",
     ["pyzwave/mailbox.py"],
     [("heartbeat", "mailbox.QueueItem")]),
    ("C22", "An idle connection keeps sending keepalives",
     "A connection, to the gateway or to a node, sends a keepalive asking for a response after every 25 seconds "
     "in which it sent nothing; any command sent defers it, at the moment it is sent, received packets do not.",
     [S, H],
     "all times of sends and receptions up to the bound",
     "Tests call the handler directly.",
     ["pyzwave/zipconnection.py"],
     [("keepalive timer", "zipconnection.ZIPConnection.resetKeepAlive")]),
    ("C23", "Configuration values keep their number, size and value",
     "Reading or writing a configuration parameter uses the parameter number asked for and an unsigned value of the given "
     "size in both directions: the value in a report is stored and returned for the parameter it names and no "
     "other, whatever other reports arrive; a cached value is returned without asking.",
     [I, H],
     "all parameter numbers, sizes 1, 2 and 4 and values",
     "Tests use one parameter and value.",
     ["pyzwave/commandclass/Configuration.py"],
     [("configuration", "commandclass.Configuration")]),
    ("C24", "Association groups hold exactly the reported nodes",
     "Association messages carry every node and endpoint in order, and after an interview each group holds exactly the "
     "reported members, plain ones first and then those with an endpoint, and the limit, including reports spread over several "
     "frames; a group whose report does not become complete within 3 seconds is left as it was; the lifeline is set up only when "
     "it is missing.",
     [I, H], "all node ids and endpoints, up to the bounded number of members and of frames",
     "Tests use one single-frame report.",
     ["pyzwave/commandclass/Association.py", "pyzwave/commandclass/MultiChannelAssociation.py"],
     [("association", "commandclass.Association")]),
    ("C25", "Sensor and meter values are exact",
     "A sensor or meter value with precision, scale and size decodes to the signed integer divided by the power of ten, with its "
     "scale; the supported sensors and scales are exactly the bits set in the mask; from version 5 on a sensor report is passed on "
     "exactly when its type and scale are among the supported ones.",
     [I], "all precisions, scales, sizes 1, 2 and 4 and integer values, all masks up to the bound",
     "Tests decode one or two values.",
     ["pyzwave/types.py", "pyzwave/commandclass/SensorMultilevel.py", "pyzwave/commandclass/Meter.py"],
     [("float field", "types.float_t"), ("masks", "commandclass.SensorMultilevel")]),
    ("C26", "Association group information is read completely",
     "Group names (ASCII), profiles and command lists (of one-byte command classes) are decoded as sent for every group the node reports, and stored for that group "
     "and no other.",
     [I, H], "all group counts up to the bound, all names, profiles and command lists",
     "Tests use one group.",
     ["pyzwave/commandclass/AssociationGrpInfo.py"], [("group info", "commandclass.AssociationGrpInfo")]),
    ("C27", "Network management results are reported truthfully",
     "Node lists decode to exactly the ids whose bits are set, inclusion and exclusion frames carry all their fields, and each "
     "network management operation returns the result the controller reported, or the documented fallback when it did not "
     "answer in time.",
     [I, F], "all masks, node ids, statuses and information frames; answered or silent",
     "Tests use one mask and one status per operation.",
     ["pyzwave/zipgateway.py", "pyzwave/commandclass/NetworkManagementProxy.py",
      "pyzwave/commandclass/NetworkManagementInclusion.py"], [("operations", "zipgateway.ZIPGateway")]),
    ("C28", "Z/IP header extensions are read and skipped correctly",
     "The options of a Z/IP header are decoded to their values, options not known are skipped, or the packet is rejected when "
     "they are marked critical, and whatever the header holds, either the packet is rejected as malformed or the command after it is "
     "decoded from the right offset.",
     [I], "all option types, lengths and contents up to the bound",
     "Tests decode two captured packets.",
     ["pyzwave/commandclass/Zip.py", "pyzwave/types.py"], [("header extension", "commandclass.Zip.HeaderExtension")]),
    ("C29", "Device specific keys survive text and wire unchanged",
     "A device specific key given as bytes or as its printed text is the same key; its text is the eight groups of five digits of "
     "the key, and it is read and written without loss on the wire, with its length (none or sixteen bytes, any other is refused) in "
     "the messages that have one.",
     [I], "all 16-byte keys, all lengths",
     "Tests use one key.",
     ["pyzwave/types.py", "pyzwave/commandclass/NodeProvisioning.py"], [("key", "types.dsk_t")]),
    ("C30", "Attributes are typed and announce changes, and only changes",
     "Assigning a declared attribute stores the value in its declared type, reading it back gives it, and the "
     "attribute hook is called exactly once per real change with the new and the old value; assigning an equal "
     "value is no change. Bit and flag values compare with each other and with whole numbers by value.",
     [I, H],
     "all attribute types but floating point ones, all values, sequences of assignments up to the bound",
     "Tests assign a value or two.",
     ["pyzwave/util.py", "pyzwave/types.py"],
     [("attributes", "util.AttributesMixin")]),
    ("C31", "Provisioning list entries are read completely",
     "Every piece of metadata in a provisioning list report is decoded to its type and value; metadata of types that are not known "
     "is skipped, or the report is rejected when it is marked critical; entries that end too early are rejected.",
     [I], "all types, lengths and contents up to the bound",
     "Tests decode one captured report.",
     ["pyzwave/commandclass/NodeProvisioning.py"], [("metadata", "commandclass.NodeProvisioning.MetadataExtension")]),
    ("C33", "Each node has one connection of its own",
     "Messages for a node are sent over a connection to that node's own address, opened at most once however "
     "many sends start together, and what arrives on it is attributed to that node; a node whose address cannot "
     "be found fails that send alone, and a later send tries again.",
     [I, S, H],
     "all node ids, resolutions that answer, fail or cross, up to the bounded number of sends",
     "Tests stub the resolution and send once.",
     ["pyzwave/zipgateway.py"],
     [("per-node connections", "zipgateway.ZIPGateway.connectToNode / sendToNode")]),
    ("C34", "Inclusion and exclusion progress reaches the application",
     "Each status the controller sends while a node is included or excluded is passed to every application listener "
     "as addNodeStatus or removeNodeStatus exactly once, in order and unchanged; when an exclusion is done and no node "
     "of this network was named (id 0), the removal of node 0 is told after the status, otherwise not. All other "
     "commands of the controller, such as the reports about keys, whether sent on its connection or to the unsolicited "
     "port, reach messageReceived once, in order, whatever other listeners do.",
     [I, S, H],
     "all statuses, node ids and report contents, sequences of commands up to the bound, listeners that fail",
     "Tests call the handler with one hand-made status.",
     ["pyzwave/application.py", "pyzwave/zipconnection.py"],
     [("progress", "application.Application.onMessageReceived"), ("controller messages", "application.Application.messageReceived")]),
    ("C35", "A request to a node or endpoint reaches it and is answered by it alone",
     "A command sent to a node goes to the address of that node, for the endpoint it was sent to and from endpoint 0, with "
     "its content unchanged. A request is answered by the first awaited report of that node and endpoint, whether it "
     "arrives on the node's connection or at the unsolicited port, and by no report of another node or endpoint; "
     "those reach their own endpoint once.",
     [I, S, H],
     "all contents, nodes with endpoints, reports from any of them in any order, requests to several at once",
     "Tests stub the adapter and answer from the node that was asked.",
     ["pyzwave/node.py", "pyzwave/zipgateway.py", "pyzwave/application.py"],
     [("requests", "node.Node.sendAndReceive"), ("routing", "zipgateway.ZIPGateway.onMessageReceived / onUnsolicitedMessage")]),
    ("C36", "A network connection carries datagrams unchanged while it is open",
     "Every datagram given to a connection is sent once and unchanged, to its peer or to the address given, and every one "
     "that arrives is handed on once and unchanged, with the address of the sender only when listening. Before it is "
     "connected sending reports failure and stopping does nothing; stopping or losing it closes the socket, after which "
     "nothing is sent, and it can be connected again.",
     [I, H, F],
     "all contents, orders of datagrams in both directions up to the bound, stop and loss",
     "Tests replace the socket by a mock.",
     ["pyzwave/connection.py"],
     [("datagrams", "connection.Connection")]),
    ("C37", "Every message can be printed, with its fields and their values",
     "Whatever was decoded, also a truncated or an unknown message, printing it never fails nor changes it: the text names "
     "the command class and command, by their numbers if they are not known, and lists each field that is there "
     "once, in order, with its value, and no field that is not there; a message inside of it is listed below its "
     "field, indented once more.",
     [I],
     "all frames up to the bound of every message type, all field values",
     "Tests print one packet.",
     ["pyzwave/message.py", "pyzwave/util.py", "pyzwave/types.py"],
     [("printing", "message.Message.__repr__"), ("fields", "util.AttributesMixin.debugString"), ("values", "types.*.__repr__")]),
    ("C38", "Connecting prepares the gateway whatever it answers",
     "Connecting to the gateway asks for its mode and sets it to standalone exactly if another one was reported, then "
     "listens at the port for unsolicited messages and only after that tells the gateway to send them there, then asks for "
     "the node list and the address of each listed node once. It succeeds within the time allowed for the answers "
     "when any of them is missing or any command is refused, doing the other steps, and can be repeated.",
     [I, S, F],
     "all modes, node lists up to the bound, any answer missing or late, any command refused or lost",
     "Tests stub every step.",
     ["pyzwave/zipgateway.py"],
     [("connect", "zipgateway.ZIPGateway.connect / setupUnsolicitedConnection / setGatewayMode")]),
    ("C39", "A node shows what is known about it, and is removed truthfully",
     "A node and its endpoints tell the node id and endpoint number they have; an endpoint shows the basic device class, "
     "FLiRS, failed and listening state of its node as they are now and its own other device classes; a command class is told to be "
     "supported exactly if it was listed. Removing a failed node, also through its endpoint, asks the controller for that "
     "node once and is told as done exactly if the controller reports it as done in time; it never raises.",
     [I, H, F],
     "all ids, states and statuses, changes up to the bound, answers at any time or never",
     "Tests check one id and one status.",
     ["pyzwave/node.py"],
     [("node", "node.Node"), ("endpoint", "node.NodeEndPoint"), ("removal", "node.Node.remove")]),
    ("C40", "What the network reported survives a restart",
     "Whatever interviews and reports told the application about the nodes and endpoints - supported classes, versions, interview "
     "state, data of every command class - is the same after the program ended, at any time, and was started again over the same storage: "
     "nothing is lost, mixed up between nodes and endpoints or asked for again, and an interview under way costs only the class it was at. "
     "Listeners are told about a node when it is what it was.",
     [I, H, F],
     "interviews, reports and restarts in any order up to the bound, all reported values, the program ended at any millisecond of an interview",
     "Tests store one hand-made node and mock the files; no test restarts an application.",
     ["pyzwave/application.py", "pyzwave/persistantstorage.py", "pyzwave/node.py", "pyzwave/commandclass/__init__.py"],
     [("storing", "persistantstorage.YamlStorage"), ("restoring", "application.Application.nodeListUpdated"),
      ("what is stored", "util.AttributesMixin.__getstate__ / __setstate__")]),
    ("C41", "A call that is cancelled leaves everything else working",
     "When a call of the library is cancelled at any time, as a timeout of the caller's own does, it ends as cancelled; calls running "
     "beside it and calls made after it work as if it had never been made, later reports reach listeners and are stored, what it had changed "
     "until then is saved, and starting the application again succeeds.",
     [S, F],
     "every millisecond of cancelling, every kind of call, one call beside it and one after it",
     "No test cancels anything.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/connection.py", "pyzwave/util.py",
      "pyzwave/commandclass/__init__.py"],
     [("waiting", "util.MessageWaiter.waitForMessage"), ("connections", "zipgateway.ZIPGateway.connectToNode"),
      ("locks", "node.storageLock, Adapter sessions")]),
    ("C42", "A report that is cut short spoils only the call it answers",
     "When an answer of the gateway or of a node ends early, whoever asked gets what it gets without an answer or what was there: "
     "no call fails in another way, the rest of an interview, of connecting and of starting the application goes on, other command classes, "
     "nodes and endpoints are as ever, and asking again works. Nothing a report does not contain is taken as reported. A report of fixed "
     "layout with more bytes behind its end, as later versions have, is understood as without them.",
     [I, F],
     "every answer of every call, all points it can be cut at or up to three more bytes of any values",
     "Tests answer every request completely.",
     ["pyzwave/zipgateway.py", "pyzwave/node.py", "pyzwave/application.py", "pyzwave/commandclass"],
     [("calls", "zipgateway.ZIPGateway"), ("interviews", "node.Node.interview, CommandClass.requestVersion"),
      ("starting", "application.Application.startup")]),
    ("C43", "What arrives is handled in the order in which it arrived",
     "Messages of one kind reach each listener of a node or endpoint in the order in which they arrived, each once, whichever port they arrived "
     "at and however close together; what is stored is what the last report said; requests for the same report are answered in the order "
     "in which they were made; and each supervised command gets its own outcome.",
     [I, S],
     "up to three messages of any values, of several nodes and endpoints, at both ports, with and without supervision",
     "Tests deliver one message and look at it.",
     ["pyzwave/zipgateway.py", "pyzwave/application.py", "pyzwave/node.py", "pyzwave/util.py", "pyzwave/commandclass/CommandClass.py"],
     [("delivery", "zipgateway.ZIPGateway.onUnsolicitedMessage / onMessageReceived"), ("handling", "node.Node.handleMessage"),
      ("events", "util.Listenable.speak / ask")]),
    ("C44", "Work that has ended leaves nothing behind",
     "However often a call is made, succeeds, is not answered, is answered late or is cancelled, and however often messages arrive, nodes come and "
     "go and mailbox entries are delivered or refused, the library holds no more than after the second time, and no task or timer of it goes "
     "on for work that has ended.",
     [I, S, H, F],
     "every kind of call and arrival, every millisecond of cancelling, all values",
     "A leak shows in no single call.",
     ["pyzwave/util.py", "pyzwave/adapter.py", "pyzwave/zipconnection.py", "pyzwave/zipgateway.py", "pyzwave/mailbox.py", "pyzwave/application.py"],
     [("waiting sessions", "util.MessageWaiter"), ("acknowledgements", "adapter.Adapter.waitForAck"),
      ("keepalive", "zipconnection.ZIPConnection.resetKeepAlive"), ("heartbeats", "mailbox.QueueItem")]),
    ("C45", "Commands are sent once each, in the order in which they were given",
     "Every command given for a node or an endpoint - also while the connection to the node is still being opened, and through any of the "
     "interfaces (node, command class, gateway) - goes out exactly once, to that node and endpoint, over its one connection, in the order in "
     "which the commands to that node were given; the outcome reported is whether it was acknowledged.",
     [I, S, H],
     "any 3 commands (4 in the thorough tier) to two nodes and an endpoint, all values, at any milliseconds, opened or unopened, acknowledged or not",
     "Order and number show only with several commands under way; tests send one at a time.",
     ["pyzwave/node.py", "pyzwave/zipgateway.py", "pyzwave/zipconnection.py", "pyzwave/adapter.py"],
     [("connection per node", "zipgateway.ZIPGateway.connectToNode"), ("sending", "zipconnection.ZIPConnection.send")]),
    ("C46", "The DTLS connection hands on datagrams and its key exactly",
     "The DTLS connection offers the library exactly the configured key and never writes beyond the buffers the library gives it; the key is in "
     "place before the handshake is made; every datagram read is handed on once, unchanged, in order and with its sender when it is a server, "
     "until the connection ends or is stopped; connecting ends when the connection is there or after ten seconds.",
     [I, S, F],
     "keys of 1, 16 and 32 bytes and buffers of any size up to 64, up to 3 datagrams of any content, every end, any ms until it is open",
     "Tests only call connect with start replaced, and stop.",
     ["pyzwave/dtlsconnection.py"],
     [("key callbacks", "dtlsconnection.DTLSConnection.clientPskCb"), ("reader", "dtlsconnection.DTLSConnection.run")]),
    ("C32", "Traffic on the network connection is encrypted and authenticated",
     "Data exchanged with the gateway is protected by DTLS with the configured pre-shared key, for sent and for received datagrams.",
     [I, C], "all datagrams and keys",
     "Tests replace the DTLS library by a mock.",
     ["pyzwave/dtlsconnection.py", "pyzwave/connection.py"], [("dtls", "connection.Connection")]),
]

NA = {
    "C32": "The protection is done by OpenSSL through ctypes and a reader thread; neither can be executed symbolically here, and "
           "with the library replaced by a stand-in nothing of the property is left to decide.",
}
try:
    from tools.levels import NOTES
except ImportError:
    NOTES = {}


def main():
    import run
    have = set()
    os.environ["VERIF_REEXEC"] = "1"
    for case in run.all_cases():
        have.add(case["prop"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fd:
        for pid, title, statement, over, text, why, files, mech in PROPS:
            assert len(title) <= 80, title
            for f in files:
                assert os.path.exists("/repo/" + f), f
            fd.write(json.dumps({
                "id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}) + "\n")
    manifest = {
        "version": 1, "setup_cmd": "python3 run.py setup",
        "checks": [{
            "property": p[0], "quick_cmd": "python3 run.py check %s --tier quick" % p[0],
            "thorough_cmd": "python3 run.py check %s --tier thorough" % p[0],
            "technique": "symbolic execution of the real Python code, decided by z3; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": NOTES.get(p[0]) or "Every input and schedule within the bounds of the evidence file's cases "
                                             "is covered by a z3 verdict over the real functions; nothing beyond them.",
        } for p in PROPS if p[0] in have],
        "not_applicable": [{"property": p[0], "reason": NA.get(p[0], "no check built yet")}
                           for p in PROPS if p[0] not in have],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fd:
        json.dump(manifest, fd, indent=1)
        fd.write("\n")
    print("claimed", sorted(have))


if __name__ == "__main__":
    main()
