# The properties, their anchors and how each is decided.
NOT_APPLICABLE = {}
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
                  "anchors": a, "technique": technique, "level_note": note})


WORLD = "stateless model checking of the real PIN/TAN dialog against a scripted bank: exhaustive enumeration of operation sequences and bank answers up to a deviation bound, each execution folded through a reference state machine"
WNOTE = "All sequences of up to 3 (thorough 4) dialog operations in HBCI 2.2 and FinTS 3.0 with at most 2 (thorough 3) irregular bank answers per sequence, from a menu of errors, faults, warnings and data deliveries; the real dialog, message, segment, element, token and transport code runs in every execution."
CNOTE = WNOTE + " The same machine also runs on the real client: all sequences of two and three of its eight operations while the bank's parameters change."

P("C01", "Dialog identifiers and message numbers are correct in every history",
  "Every message of a dialog carries the dialog identifier the bank assigned in that dialog's opening answer, and the first message of a dialog carries the initial identifier 0. Message numbers start at 1 in each dialog and increase by exactly one per message, in header and trailer alike, no matter which operations were run before, and which answers, errors or faults occurred.",
  ["histories", "fault_sequences"], "all sequences of client operations and all bank answers, including errors and transport faults at any exchange",
  "Unit tests drive one dialog with one or two canned answers; what follows a failed or repeated dialog on the same client is never exercised.",
  ["dialog/dialog.go", "dialog/pin_tan_dialog.go", "message/message.go"],
  [("dialog open/close bookkeeping", "dialog/dialog.go init, dialogEnd, SyncClientSystemID"), ("message counter", "dialog/dialog.go nextMessageNumber")],
  WORLD, CNOTE,
  state=[("dialogID", "identifier the bank assigned", "dialog/dialog.go dialog"), ("messageCount", "messages sent in this dialog", "dialog/dialog.go dialog")],
  observe=["the request bytes handed to the transport"])

P("C02", "Dialogs open before orders and close after them in every history",
  "An order is only ever sent inside a dialog that the bank opened with a positive answer, a client without a system identifier first obtains one by a synchronisation of its own, and every opened dialog is ended exactly once with the identifier it was opened with. When opening or synchronising fails, no order is sent; without a PIN no authenticated message is sent at all.",
  ["histories", "fault_sequences"], "all sequences of client operations and all bank answers, including errors and transport faults at any exchange",
  "The protocol order is a property of the whole exchange history; the tests check single messages with friendly answers.",
  ["dialog/dialog.go", "dialog/pin_tan_dialog.go"],
  [("implicit synchronisation, open, order, close", "dialog/dialog.go SendMessage"), ("PIN check", "dialog/pin_tan_dialog.go")],
  WORLD, CNOTE, observe=["the sequence of requests handed to the transport"])

P("C03", "Messages carry the current identity and credentials and never leak the PIN",
  "Every authenticated message identifies the customer, bank, client system and security function that are current at that moment (as assigned by the bank or set by the user), with matching signature begin and end, and is encrypted in the PIN/TAN envelope. The PIN appears exactly once in an authenticated message, inside the encrypted data; anonymous messages are neither signed nor encrypted, carry the anonymous customer number and never the PIN.",
  ["histories", "inputs"], "all sequences of client operations (including changing PIN, system identifier and security function) and all bank answers that assign new values",
  "The identity in message n depends on every earlier answer and setter call; tests fix one history.",
  ["dialog/dialog.go", "dialog/pin_tan_dialog.go", "message/signature.go", "segment/signature_header.go", "segment/encryption_header.go"],
  [("signature provider state", "message/signature.go"), ("security function choice", "dialog/dialog.go"), ("setters", "dialog/pin_tan_dialog.go")],
  WORLD, CNOTE + " Where the client may choose among several allowed security functions the check accepts any allowed one and requires it to stay.")

P("C04", "Every operation reports success exactly when the bank accepted it",
  "An operation reports success only if all exchanges that decide it were answered without an error acknowledgement and with a usable answer, and then returns the answer's acknowledgements completely. If the bank reports errors (codes 9000 to 9999, wherever they appear), or the transport fails, or the answer is unusable, the operation returns an error, which names every error code and text the bank sent; warnings and unknown codes never turn success into failure.",
  ["histories", "fault_sequences", "inputs"], "all bank answers (errors, warnings, unusable answers) and transport faults at every exchange of every operation sequence",
  "Failure handling depends on which exchange fails and how; the tests cover a handful of canned failures.",
  ["dialog/dialog.go", "message/decryption.go", "domain/acknowledgement.go", "transport/"],
  [("error collection", "dialog/dialog.go request, dialogEnd"), ("acknowledgement classes", "domain/acknowledgement.go")],
  WORLD, WNOTE)

P("C05", "Bank and user parameters always mirror the last delivery",
  "After every operation the client's bank parameters (version, bank, limits, announced job versions and their parameters, PIN/TAN job list) and user parameters (version, customer id, accounts) equal what the bank last delivered: nothing older survives, nothing is duplicated, and a failed exchange or an answer that delivers no parameters changes nothing. The versions announced when a dialog is opened are the stored ones, and zero in a synchronisation.",
  ["histories", "fault_sequences"], "all sequences of operations and all deliveries of bank and user parameters, repeated or changed",
  "Staleness and duplication only show in histories with several deliveries.",
  ["dialog/dialog.go", "domain/bank_parameter_data.go", "domain/user_parameter_data.go", "segment/common_bank_parameter_data.go", "segment/user_parameter_data.go"],
  [("parameter intake", "dialog/dialog.go init, SyncClientSystemID"), ("announcement", "dialog/dialog.go init")],
  WORLD, CNOTE)

P("C06", "Orders are sent in the highest version both sides know",
  "Every order is sent in the highest segment version that both the bank announced and the library implements, whatever the order, number and surroundings of the announcements. If there is none, the operation reports an error and sends no order; choosing never changes the announcements.",
  ["inputs", "configurations"], "all ordered lists of announced versions per order, alone or mixed with other announcements, in both protocol versions",
  "The choice depends on the combination and order of announcements; the tests announce one or two versions each.",
  ["segment/hbci_version.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/status_protocol.go", "segment/tan.go", "client/client.go"],
  [("version pickers", "segment/*.go ...RequestBuilder"), ("announcements", "segment/hbci_version.go NewBuilder")],
  "exhaustive enumeration of announcement lists, driven through the real client against a scripted bank and through the real request builder, compared with a reference choice",
  "Every ordered list of up to 3 (thorough 4) announced versions per client operation, every sequence of up to 4 (6) announcements for the builder, every list of up to 3 (4) versions from 0 to 9 for each picker.",
  observe=["the order segment handed to the transport"])

P("C07", "Results delivered in pages are returned complete and in order",
  "An operation whose result comes in pages asks for each next page with exactly the continuation mark the bank gave, with an otherwise unchanged order, starting with the caller's mark, and returns all entries of all pages once each and in order. If a page fails, the operation reports an error and no partial result.",
  ["histories", "inputs", "fault_sequences"], "all numbers and shapes of pages, all marks, all places of the mark among the acknowledgements, and a failure at any page, also after another operation",
  "Lost, doubled or reordered pages need several pages of particular shapes; the tests have one two-page answer.",
  ["client/client.go", "swift/unmarshal.go", "segment/account_balance.go", "segment/account_transaction.go"],
  [("continuation", "client/client.go accountTransactions, accountBalances, SepaAccountBalances"), ("page merging", "swift/unmarshal.go MergeMT940Messages")],
  "stateless model checking of the real client against a scripted bank: exhaustive enumeration of page sequences up to a deviation bound, compared with a reference model of paging",
  "4 paged operations, each version, up to 3 (thorough 4) pages with at most 2 (3) peculiarities from menus of shapes, marks, places and faults; all pairs of operations.",
  observe=["the orders handed to the transport", "the entries returned"])

P("C08", "Every message sent is framed as the protocol demands",
  "Every message states its exact size in bytes in twelve digits, its protocol version, and the same message number in header and trailer; its segments are numbered 1 to n without gaps, the encryption segments 998 and 999, in the versions of the protocol. A signed message has exactly one signature header and trailer with the same control reference around the orders, which are present completely and in order, and its security headers declare the procedures of PIN/TAN and the time of sending; however often and after whatever steps a message is written, it is written as it is at that moment.",
  ["inputs", "histories"], "all messages of the 15 kinds of orders in lists, all texts of a menu in every place, all sequences of signing, numbering, measuring, encrypting and writing",
  "Size and numbering depend on the content and on everything done to a message before; tests check recorded messages once each.",
  ["message/message.go", "message/crypto.go", "segment/message_header.go", "segment/message_end.go", "segment/segment.go", "dialog/dialog.go"],
  [("numbering and size", "message/message.go SetSegmentPositions, SetSize, MarshalHBCI"), ("signature and envelope", "message/message.go Sign, Encrypt")],
  "stateless model checking: exhaustive enumeration of order lists and of step sequences on the real message types, every message parsed by an independent strict parser",
  "Signed and anonymous dialogs with up to 2 orders and one (thorough two) unusual texts; all sequences of 3 (4) steps on messages of up to 1 (2) orders.",
  observe=["the request bytes handed to the transport", "the bytes of a written message"])

P("C09", "Requests say exactly what the caller and the configuration say",
  "Account, sub-account, country, bank, IBAN, BIC, all-accounts flag, days, number of entries, continuation mark, user, system identifier, PIN and product appear in the request exactly as given, each in its own place, whatever characters they contain, and days are the calendar days of the given times. A text that the bank's character set lacks is reported as an error and nothing is sent.",
  ["inputs"], "all combinations of up to two or three unusual arguments (delimiters, binary marks, accented, empty, long and unencodable texts, country codes, days in several time zones) for every operation and request segment",
  "Values shift or change only with particular characters or empty members in particular places; tests use one plain account.",
  ["client/client.go", "segment/account_balance.go", "segment/account_transaction.go", "segment/account_information.go", "segment/status_protocol.go", "segment/communication_access.go", "segment/identification.go", "segment/dialog.go", "element/data_element.go", "element/group_data_element_group.go"],
  [("request segments", "segment/*.go New...Request..."), ("encoding", "element/data_element.go MarshalHBCI")],
  "exhaustive enumeration of argument combinations up to a deviation bound through the real client and every request constructor, the sent bytes taken apart by an independent parser",
  "Client level with at most 1 (thorough 2) unusual arguments, configuration and anonymous requests with 2 (3), all 20 request segments with 3 (4); every country code, number of entries, version number, segment position and every day from 1990 to 2099 on its own.",
  observe=["the request bytes handed to the transport"])

P("C10", "Encoding and decoding data elements are inverse and never leak delimiters",
  "Every data element a client can send appears on the wire as exactly its value: decoding with the HBCI grammar gives the value back, whatever syntax characters (+ : ' ? @), umlauts or binary data it contains, and the neighbouring elements stay intact. Every element the library can also decode is decoded back to the same value: texts, numbers, amounts, dates, times, binary data, and the groups built from them.",
  ["inputs"], "all text values including every syntax character in every position, all amounts, dates, numbers, binary contents and lengths, and combinations of empty and present group members",
  "Unit tests encode a few friendly values; injection and truncation show only for values with syntax characters in particular positions (for instance at the end of the last group member).",
  ["element/data_element.go", "element/data_element_type.go", "element/group_data_element_group.go", "element/element_extractor.go", "charset/convert.go", "segment/segment.go"],
  [("escaping", "element/data_element.go escape, unescape"), ("group joining", "element/data_element.go elementGroup.MarshalHBCI"), ("splitting", "element/element_extractor.go, segment/element_extractor.go")],
  "exhaustive enumeration of element values up to stated bounds on the real encoder and decoder, compared with an independent reference grammar",
  "Every string up to 5 (thorough 6) over the syntax characters, a letter, a digit, an umlaut and blank in each text-like element; every two-character string of the character set; every number, day, second and cent amount in the stated ranges; binary data of every length to 1100; all groups over 20 tricky values per member.")

P("C11", "Splitting messages into segments, elements and groups follows the grammar",
  "A message is split into exactly the segments, data elements and group members the HBCI grammar defines: escaped delimiters and everything inside binary data never split, and nothing is lost, merged or reordered. Input that is not in the grammar is reported as an error and never causes a panic, a hang or silently dropped content.",
  ["inputs"], "all byte strings up to a length over the grammar's alphabet, and all well-formed messages up to a size",
  "The lexer is a state machine whose corner cases are interactions of escapes, binary lengths and ends of input; tests sample a few of them.",
  ["token/lexer.go", "message/segment_extractor.go", "segment/element_extractor.go", "element/element_extractor.go"],
  [("lexer states", "token/lexer.go"), ("extractors", "message/segment_extractor.go, segment/element_extractor.go, element/element_extractor.go")],
  "exhaustive enumeration of all inputs up to a length over the grammar alphabet, each run through the real lexer and extractors and compared with an independent reference parser",
  "Every string up to length 6 (thorough 7) over the delimiters, escape, binary marker, digits, letter and control bytes; every structured message up to the stated shape. Tolerated: digits with a leading zero followed by a comma are rejected (an existing test asserts that), and an unescaped @ inside a value is accepted.")

ENUM = "exhaustive enumeration of a bounded input space on the real code, every result compared with an independent reference model"

P("C12", "Bank segments decode to exactly the values they contain",
  "Every segment a bank sends in a layout the library declares is read to exactly the values that stand in it, for every combination of present, empty and left out optional parts, and is found under its own identifier, version and reference. What is handed to users (balances, accounts, bank and user parameters, acknowledgements, status entries, TAN procedures) equals those values; date and time of day belong together.",
  ["inputs"], "all segments and versions the library reads, with every combination of contents that deviates from the usual one in a bounded number of places",
  "The decoders are generated per segment and version; the tests hold one example for a few of them, and most versions and almost all optional parts are never read.",
  ["segment/segment.go", "segment/account_balance.go", "segment/user_parameter_data.go", "segment/status_protocol.go", "segment/tan.go", "element/data_element.go", "element/tan.go"],
  [("generated decoders", "segment/*_unmarshaler.go"), ("segment lookup by identifier and version", "segment/segment_index.go"), ("group decoders", "element/*.go UnmarshalHBCI"), ("values handed out", "segment/account_balance.go, basic_account_information.go, user_parameter_data.go, common_bank_parameter_data.go, status_protocol.go")],
  ENUM, "40 segment layouts; at most 2 (thorough 3) data elements of a segment deviate from their usual content at once, from a pool of 2 to 7 contents per kind of element plus absence; each read inside a message and through the segment that picks the version. Layouts are those the code declares where the specification is not in the repository.")

P("C13", "No answer of a bank can crash the program",
  "Whatever segments a bank answers with - missing, repeated, unknown, in other versions, cut, with missing or malformed elements or in a damaged envelope - every operation returns, with a result or an error, everything decoded can be read, and the client stays usable.",
  ["inputs", "fault_sequences"], "every single damage of a menu to every segment and element of every answer of every operation, pairs of damages per segment, all short contents and heads of segments",
  "A crash needs a particular missing element in a particular segment; tests feed well-formed answers.",
  ["dialog/dialog.go", "client/client.go", "message/decryption.go", "message/unmarshaler.go", "segment/", "element/"],
  [("segment decoders", "segment/*_unmarshaler.go"), ("element decoders", "element/*.go UnmarshalHBCI"), ("answer handling", "dialog/dialog.go request, init, SyncClientSystemID")],
  "exhaustive enumeration of damaged answers up to a damage bound through the real client, dialog and decoders, which must return without panic",
  "46 segment layouts with one of 32 damages anywhere and two (thorough three) of 8, all contents of up to 5 (6) of 10 characters, all heads of up to 5 members; 8 client operations with one damage to any answer or envelope.")

P("C14", "Account statements decode to the transactions and balances they contain",
  "Every booking line of an MT940 statement becomes one transaction with the amount and sign of its debit/credit mark (including cancellations and fund codes), its value and booking date in the right year, and the description, references, purpose and counterparty given for it, line breaks of the transfer format included. Opening and closing balances keep sign, currency and date, and the running balance of each transaction starts at the opening balance and ends at the closing balance.",
  ["inputs"], "all combinations of line marks, dates, amounts, optional fields and description fields within the stated menus; all pairs of value and booking date up to 150 days apart",
  "Statements combine many optional parts whose interaction (mark without booking date, turn of the year, line break inside a field) decides sign and year of money; tests hold a few recorded statements.",
  ["swift/mt940.go", "swift/unmarshal.go", "swift/element.go", "swift/mt940_unmarshaler.go"],
  [("line parser", "swift/mt940.go TransactionTag.Unmarshal"), ("balances", "swift/mt940.go AccountTransactions, BalanceTag"), ("description fields", "swift/element.go")],
  ENUM, "Full products of line marks, currencies, amounts and optional parts; every value date of four years with every booking date 150 days around it; all descriptions with up to 3 unusual fields; line breaks at every pair of positions.")

P("C15", "Statement streams keep every transaction exactly once and in order",
  "A stream of statements, delivered whole or cut into pages at any place and merged, yields all transactions of all statements, each once, in their order. A statement that cannot be read is reported as an error; no statement or transaction is ever dropped in silence, and an empty stream is an empty list.",
  ["inputs", "histories"], "all streams up to three statements of three transactions; every cut into pages; every order and nesting of merging; every subset of unreadable statements",
  "Lost or doubled bookings appear only for particular cuts and counts (more than twelve statements, a cut inside a tag), which no test samples.",
  ["swift/mt940.go", "swift/unmarshal.go", "swift/message_extractor.go", "domain/account_transaction.go"],
  [("statement extraction", "swift/mt940.go MT940MessagesUnmarshaler"), ("page merging", "swift/mt940.go MergeMT940Messages")],
  ENUM, "All streams of up to 3x3, long streams up to 100x100, every two-page cut at every byte and every cut at tag boundaries into up to 4 pages in every merge order and nesting.")

P("C16", "No statement data can crash the program",
  "Reading statement data never panics and never hangs, whatever the bank or the network sends: truncated, damaged, reordered, repeated or random fields end in an error or in transactions.",
  ["inputs"], "every single-byte damage, removal and truncation of a full statement, every subset and swap of its lines, and all short strings over the format's tokens",
  "Crashes sit at unusual lengths and separators; tests only feed good statements.",
  ["swift/mt940.go", "swift/unmarshal.go", "swift/element.go", "swift/tag_extractor.go"],
  [("tag parsers", "swift/mt940.go"), ("statement extraction", "swift/mt940.go")],
  "exhaustive enumeration of damaged inputs (all single edits, all line subsets, all short token strings) on the real parser, which must return",
  "All edits of a 481-byte statement with every field, all strings of up to 5 of 16 tokens, all tag values of up to 4 bytes over 16 characters.")

P("C17", "IBANs are accepted exactly when they are valid and made with right check digits",
  "Building an IBAN from a country and account yields one whose check digits satisfy ISO 13616 for every country code of two letters, and refuses anything else; a German one is made from bank code and account number of any length up to ten digits. Validation accepts a string exactly when its format and check digits are right: every single-character error and transposition is detected, and no input crashes.",
  ["inputs"], "all country codes, account numbers of all lengths and patterns, all single-character and two-character errors, all pairs of check digits, and all short strings",
  "Check digit arithmetic goes wrong for particular lengths (leading zeros, check values below 10), which a few example IBANs do not show.",
  ["iban/iban.go", "iban/iban_test.go"],
  [("check digits", "iban/iban.go"), ("validation", "iban/iban.go IsValid"), ("German accounts", "iban/iban.go NewGerman")],
  ENUM, "The reference computes mod 97 independently digit by digit; every string up to length 4 to 5 over small alphabets, every country code, every length to 34.")

P("C18", "Transports and middlewares deliver every body unchanged and report every fault",
  "Whatever stack of encoding and logging middlewares is used, and however the network splits the data, the bank receives exactly the encoded request once and the caller exactly the bank's answer. A fault while reading the request, exchanging, or reading the answer is reported as that fault, damaged encoded data is an error, and a text the bank's character set lacks is never sent altered; logging never changes or breaks an exchange.",
  ["inputs", "fault_sequences"], "all body lengths and contents of the stated menus, all piece sizes, all fault points, all stacks",
  "Buffering and flushing errors depend on the length modulo block sizes and on where a read ends; the tests send one short body each.",
  ["transport/https/https.go", "transport/middleware/encoding.go", "transport/middleware/logging.go", "transport/transport.go"],
  [("Base64", "transport/https/https.go, transport/middleware/encoding.go"), ("character set", "transport/middleware/encoding.go"), ("response reading", "transport/transport.go ReadResponse")],
  "exhaustive enumeration of bodies, chunkings and fault points through the real transports and middlewares over an in-memory network",
  "Nine stacks, every length 0..40 (thorough 120) and the sizes around buffer boundaries up to 100 kB, three chunkings, faults at each of three points. A character cut at the very end of a request is not judged, because an existing test fixes that the encoder is not closed.")

P("C19", "Text conversion between UTF-8 and the bank's character set is lossless",
  "Every byte string from the bank decodes to the text it means in ISO 8859-1 and encodes back to the same bytes; every text of that character set encodes to one byte per character. A character outside it is refused and never silently replaced or dropped.",
  ["inputs"], "all byte strings up to length 2 (thorough 3), every byte at every position of longer ones, and all Unicode code points",
  "The mapping has 256 and 1.1 million cases; tests check a few umlauts through other code.",
  ["charset/convert.go"],
  [("conversion", "charset/convert.go ToUTF8, ToISO8859_1")],
  ENUM, "Complete over code points; complete over byte strings up to the stated length; byte at each position of lengths to 40 and three large sizes.")

P("C20", "Bank lookup and configuration pick exactly the bank's address and version",
  "Reading a bank list, or generating the table of banks from it, keeps every row with a bank code, with each value taken from the column of its name in whatever order the columns come, and reports a damaged list instead of shortening it. Looking up a bank code returns the entry of exactly that bank or nothing. A client is made exactly when it has an address and a supported protocol version: its own settings come first, the bank's entry fills the gaps, and its requests go to that address in that version.",
  ["inputs", "configurations"], "all column orders and subsets, all bank codes of the list with all combinations of own address and version",
  "A wrong column or a wrong bank is a matter of particular files and codes; tests use two rows.",
  ["bankinfo/parser.go", "bankinfo/bank_info.go", "client/client.go", "cmd/bankdata_parser/bankdata_parser.go"],
  [("list parser", "bankinfo/parser.go ParseBankInfos, ParseBicData"), ("lookup", "bankinfo/bank_info.go FindByBankID"), ("configuration", "client/client.go New")],
  ENUM, "All 7! (thorough 8!) column orders, all 256 column subsets, all bank codes in the shipped list with neighbours, with 2 addresses x 7 versions x own transport; the generating program run on up to 3 lists with one (two) unusual values or rows that share values.",
  observe=["the address and bytes handed to the transport"])

P("C21", "Dates and timeframes survive every way of writing and reading them",
  "A date is the calendar day it was made from in its own time zone, and writing it as JSON, text or query and reading it back gives the same day, whether passed by value, by pointer or inside another structure; the same holds for timeframes, and a timeframe until today ends today. A missing date stays missing, and malformed input never becomes a date.",
  ["inputs"], "every day of the stated years in three time zones, pairs of days, and every pair of well-formed, malformed and missing values",
  "Days shift at time zone and year edges and values change with the form of passing them; tests use one date and pointers only.",
  ["domain/time.go"],
  [("dates", "domain/time.go ShortDate"), ("timeframes", "domain/time.go Timeframe")],
  ENUM, "Every day of 12 (thorough 201) years, pairs of every 29th (7th) day, complete menus of malformed values.")

P("C22", "Generated decoders read every element from its own place",
  "The decoder generated for the declaration of a segment, in one or several versions, reads every declared data element from its own place in the message into its own field, in the order the declaration lists them and however its source is laid out; absent elements stay absent and undeclared versions are refused. A declaration no decoder can be made of is reported, and never becomes a decoder that leaves elements out or does not compile.",
  ["inputs", "configurations"], "all declarations of segments up to a size, in every order and layout and with everything around them that a source file may hold, and all messages for each",
  "The decoders of all bank segments are generated; a shift by one place shows only for particular declarations, and the tests hold four fixtures of two elements.",
  ["generator/segment_unmarshaler.go", "generator/segment_field_visitor.go", "cmd/unmarshaler/unmarshaler_generator.go", "segment/segment_index.go"],
  [("reading declarations", "generator/segment_field_visitor.go"), ("templates", "generator/segment_unmarshaler.go"), ("command", "cmd/unmarshaler/unmarshaler_generator.go")],
  "exhaustive enumeration of declarations up to a size, generated, compiled and run on all messages of each; and the repository's own decoders, generated anew, explored like the committed ones",
  "All segments of up to 3 (thorough 4) elements of 3 types in all orders and 3 layouts, up to 24 (60) elements, surroundings, 15 version lists; every combination of present and absent elements.")

P("C23", "Clients do not influence each other",
  "Several clients in one program, whether for different banks, users of one bank or one user, may be made and used at the same time: however their exchanges interleave and whichever of them fail, each sends exactly the messages and reports exactly the results that it would alone. Using them in parallel is no data race.",
  ["schedules", "fault_sequences"], "all interleavings of the exchanges of two or three clients up to a number of switches, all pairs of operations and ways of failing, own or shared banks and users, and every pair of operations in parallel",
  "Shared state shows only when one client acts between two particular exchanges of another; tests run one client at a time.",
  ["client/client.go", "dialog/dialog.go", "dialog/pin_tan_dialog.go", "message/signature.go", "segment/segment_index.go", "internal/"],
  [("state of a dialog", "dialog/dialog.go dialog"), ("keys and providers", "dialog/pin_tan_dialog.go SetPin"), ("shared tables", "segment/segment_index.go KnownSegments")],
  "stateless model checking of the real clients under a controlled scheduler that decides at every exchange which client goes on, exhaustively up to a preemption bound, compared with the same clients alone in processes of their own; every pair of operations once more without any ordering between the clients, under the happens-before race detector",
  "Two clients with each of 5 operations and 4 outcomes, up to 2 (thorough 4) switches or failures; three clients with up to 2; all 924 schedules of two status requests. Switches happen at exchanges; accesses inside computations are judged by happens-before order, which does not depend on the schedule that was run as long as both clients take the same path. That part is left out where the race detector cannot be built.")

P("C24", "What is signed and encrypted is exactly what is sent",
  "The signature of a message covers exactly the bytes from the signature header to before the signature trailer as they are sent, and verifies with the signer's public key; what is encrypted is exactly the signed content, and is sent unchanged as the provider returned it. Decrypting gives back the same segments; a signature or encryption that fails is reported and nothing is handed out.",
  ["inputs", "fault_sequences"], "all messages of up to two of 15 kinds of orders, all texts of a menu, both protocols, every provider succeeding or failing at each step",
  "A signature over bytes that differ from those sent only shows with a bank that verifies it; the PIN/TAN tests never look at the signed bytes.",
  ["message/message.go", "message/signature.go", "message/crypto.go", "message/encryption.go", "domain/key.go"],
  [("signed bytes", "message/message.go Sign"), ("encrypted bytes", "message/message.go Encrypt"), ("decryption", "message/encryption.go Decrypt")],
  ENUM, "Recording, RSA and failing providers; messages of up to 2 orders with one (thorough two) unusual texts, signed once or twice.")

P("C25", "Looking into a message gives exactly the segments it has",
  "Every lookup in a received or prepared message - one segment, all segments, raw or decoded, by identifier, by version, or the position - gives exactly the segments with that whole identifier, in their order and unchanged, whatever other identifiers begin with it and whatever their content looks like. Reading or looking again, or overwriting a list handed out, changes nothing.",
  ["inputs", "histories"], "all messages of up to three (thorough four) segments of 11 kinds and all histories of reading them; all prepared messages of up to three (four) of 15 kinds of orders",
  "Wrong lookups need two identifiers of which one begins the other, in the wrong order, or a second reading.",
  ["message/unmarshaler.go", "message/segment_extractor.go", "message/decryption.go", "transport/transport.go", "segment/segment_index.go"],
  [("raw lookup", "message/segment_extractor.go FindSegment, FindSegments"), ("decoded lookup", "message/unmarshaler.go"), ("answers", "transport/transport.go ReadResponse")],
  "stateless model checking: exhaustive enumeration of messages and histories of calls on the real decoder, compared with a reference list",
  "Messages of up to 3 (4) segments, histories of up to 3 (4) steps, 14 identifiers.")

P("C26", "Printed tables show every value in its own column",
  "The tables printed for accounts, balances and transactions have a title for every column and one line for each entry in the order given, and every line shows each value - date, amount with two decimals and currency, name, account - exactly and under the title of its own column. Long, empty, negative or accented values change neither the other columns nor the other lines.",
  ["inputs"], "all lists of up to two (thorough three) entries with all values of the menus in every column",
  "Columns shift or run together only for values of particular lengths beside empty ones; the tests print one ordinary entry.",
  ["domain/account_balance.go", "domain/account_transaction.go", "domain/account_information.go"],
  [("accounts", "domain/account_information.go AccountInformations"), ("balances", "domain/account_balance.go AccountBalances"), ("transactions", "domain/account_transaction.go AccountTransactions")],
  ENUM, "Names and texts of 17 lengths and kinds, 7 amounts, 3 days; lists of up to 2 (3) entries with up to two unusual values.")

P("C27", "Acknowledgements are handed out complete, classified and with their subject",
  "Every acknowledgement of an answer is handed out once, message acknowledgements before segment acknowledgements and each in order, with its code, text, position, parameters and the message and segment it refers to, and its text form shows them. The same holds for the entries of a status protocol, with their time. A code is a success exactly when it starts with 0, a warning with 3, an error with 9.",
  ["inputs"], "all 10000 codes, and all answers with up to two (thorough three) acknowledgement segments in any order and content",
  "Codes at class boundaries and answers with several acknowledgement segments are not among the samples of the tests.",
  ["domain/acknowledgement.go", "element/acknowledgement.go", "segment/acknowledgement.go", "message/decryption.go"],
  [("classes", "domain/acknowledgement.go IsError, IsWarning, IsSuccess"), ("collection", "message/decryption.go NewDecryptedMessage")],
  ENUM, "Every code alone and after a success; up to 2 (3) acknowledgement segments of 6 kinds with at most 2 unusual contents; status protocols of up to 2 (3) entries, and of entries in which one thing takes every value.")

P("C28", "The command line program asks for what it is told and shows what it gets",
  "Each command asks the right bank, in its protocol and at its address, for exactly the account and period given, as the user whose identity and bank come from the command line, else the environment, else the settings file, and signs with the PIN given; without all of these, or misused, it sends nothing. It shows exactly the result and ends with status 0, or says what failed, with every error the bank reported, shows no result and ends with another status. Settings files are never changed once they are there and never hold the PIN.",
  ["configurations", "inputs", "fault_sequences"], "all sources of the settings, all commands with all values of the menus for their options, and every exchange with the bank failing or refused in every way of a menu",
  "No test runs the program; wrong precedence, a lost error or a wrong exit status only show end to end.",
  ["cmd/banking/root.go", "cmd/banking/accounts.go", "cmd/banking/balances.go", "cmd/banking/transactions.go", "transport/https/https.go"],
  [("settings", "cmd/banking/root.go initConfig, initClient"), ("commands", "cmd/banking/accounts.go, balances.go, transactions.go"), ("connection", "transport/https/https.go HTTPSBase64Transport")],
  "exhaustive enumeration of invocations and of the bank's answers: the real program runs as a process against a scripted bank under the explorer's control, judged by its requests, output, files and exit status",
  "8 x 8 sources of settings in 7 forms and a second use; 4 commands x 8 accounts x 8 periods; up to one (thorough two) failing exchanges of 15 kinds; 367 (all 1832) banks of the list.",
  observe=["requests, output, exit status and files of the real program"])
