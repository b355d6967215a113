#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long JSON stays reviewable)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})

prop("C01","Tokenising wire data is total, lossless and ends exactly once",
 "Splitting any byte sequence into wire-syntax tokens terminates and never crashes. The token values, concatenated in order, reproduce the input from its first byte without loss, duplication or reordering, and every token reports the offset in the input at which its value starts. The scan ends with exactly one end token once the whole input has been delivered, or with exactly one error token.",
 ["inputs"],"every byte sequence of every length, including NUL bytes, truncated input and over-long announced lengths",
 "The lexer tests feed about forty hand-written fragments; losslessness and termination quantify over all byte strings and all interleavings of the scanner's states.",
 ["token/lexer.go","token/token.go"],
 [("scanner states emit input[start:pos] and move start to pos","token/lexer.go emit, next, backup, peek, accept, acceptRun"),
  ("state functions","token/lexer.go lexStart, lexAlphaNumeric, lexBinaryData, lexDigit, lexNumber"),
  ("pull loop","token/lexer.go Next, HasNext")],
 [("input/start/pos","input[:start] has been handed out, input[start:pos] is pending","token/lexer.go Lexer"),
  ("tokens","at most one token waits to be handed out","token/lexer.go Lexer")],
 ["tokens handed out by the scanner"])

prop("C02","Binary fields are opaque to framing",
 "A binary field announced as @n@ is taken as exactly the n bytes that follow, whatever they are: delimiters, quotes, escape characters or NUL bytes inside it never split, shorten or lengthen it. If the announced length is not followed by that many bytes and then a delimiter, an error is reported and the field is not delivered; decoding such a field returns exactly the announced bytes or an error, never padded or truncated data and never a crash.",
 ["inputs"],"every announced length (any digit string, including huge ones) and every content",
 "Tests use a handful of short printable payloads; the guarantee is over every length and every byte value, including lengths beyond the input and beyond the machine integer range.",
 ["token/lexer.go","element/data_element.go","segment/encrypted_data.go"],
 [("length-prefixed skip","token/lexer.go lexBinaryData"),("binary field encode/decode","element/data_element.go BinaryDataElement MarshalHBCI/UnmarshalHBCI")],
 None,["tokens, extracted fields, decoded values"])

prop("C03","Text values survive the wire unchanged",
 "Every text made of ISO-8859-1 characters that is written into a text, alphanumeric, code, identification or currency field comes back identical when the field is read, including texts containing delimiters, quotes, at-signs and escape characters anywhere. The written form never ends or splits the field early: scanned with a following delimiter, it is consumed up to exactly that delimiter.",
 ["inputs"],"every text over the 256 ISO-8859-1 characters, of every length, in every text-like field type",
 "Tests check a few escaped literals; the inverse law needs induction over all texts because escapes interact with their neighbours.",
 ["element/data_element.go","charset/convert.go","token/lexer.go"],
 [("escape/unescape","element/data_element.go escape, unescape"),("charset conversion","charset/convert.go"),("field types","element/data_element.go *DataElement MarshalHBCI/UnmarshalHBCI")],
 None,["marshalled bytes and decoded values of text-like fields"])

prop("C04","Scalar values survive the wire unchanged",
 "Numbers, zero-padded digits, amounts, booleans, dates, times, country codes and binary values come back equal when the field they were written into is read. Digit fields are padded with leading zeros to their fixed width, booleans are J or N and amounts carry a decimal comma. A field whose content is not of its type is rejected with an error and is never read as some default value.",
 ["inputs"],"every value of each scalar type (numbers and digits non-negative, finite amounts, dates of years 0 to 9999), and every malformed field content",
 "Tests check single examples per type; the law quantifies over all values and all malformed inputs.",
 ["element/data_element.go"],
 [("scalar codecs","element/data_element.go Digit/Number/Float/Boolean/Date/Time/CountryCode/Value MarshalHBCI, UnmarshalHBCI, String")],
 None,["marshalled bytes and decoded values of scalar fields"])

prop("C05","Segments and groups keep every field at its position",
 "The serialised form of a segment or of a field group lists its fields in declared order, each separated by exactly one delimiter, with an empty slot for each absent field in between; only absent fields at the end are left out, and a segment ends with its terminator. Splitting the serialised form again yields, position by position, exactly the bytes each field was written as, whatever those bytes are (values ending in an escaped or raw delimiter included).",
 ["inputs"],"every number of fields, every present/absent pattern and every field content",
 "Tests serialise a few fixed segments; which trailing bytes may be dropped depends on the content of the last field and on all absence patterns.",
 ["segment/segment.go","element/data_element.go","element/element_extractor.go","segment/element_extractor.go"],
 [("join of field bytes","segment/segment.go MarshalHBCI; element/data_element.go elementGroup.MarshalHBCI"),
  ("split of field bytes","segment/element_extractor.go; element/element_extractor.go")],
 None,["bytes of serialised segments/groups and the extracted fields"])

prop("C06","A response decomposes into exactly its segments",
 "Decomposing a message yields its segments in order of appearance, unmodified, such that their concatenation is the message up to its last segment terminator; malformed syntax is reported as an error instead. Looking segments up by identifier returns those, and only those, whose identifier equals the requested one, in order of appearance, and nothing if there is none. Decomposing the same message repeatedly gives the same result and hands out lists the caller may alter without affecting later lookups.",
 ["inputs","histories"],"every message content, every identifier, every sequence of extract/lookup calls",
 "Tests use a few fixed responses whose identifiers are not prefixes of each other and call the extraction once.",
 ["message/segment_extractor.go","message/unmarshaler.go","message/decryption.go"],
 [("segment splitting","message/segment_extractor.go Extract"),("lookup","message/segment_extractor.go FindSegment, FindSegments, Segments"),("typed lookup","message/unmarshaler.go SegmentByID, SegmentsByID")],
 [("segments","the decomposed message","message/segment_extractor.go SegmentExtractor")],["returned segment bytes"])

prop("C07","Segment headers are read and written faithfully",
 "A segment header written with an identifier, number, version and optional reference is read back with the same identifier, number, version and reference, and a header without a reference reads as having none. Header bytes that lack one of the three mandatory parts, or whose numeric parts are not numbers, are rejected with an error.",
 ["inputs"],"every identifier, non-negative number, version and reference, and every malformed header",
 "Tests read a few literal headers; the law is over all header values and all malformed byte strings.",
 ["element/segment_header.go","segment/segment.go"],
 [("header codec","element/segment_header.go NewSegmentHeader, NewReferencingSegmentHeader, UnmarshalHBCI, ReferencingSegment")],
 None,["header fields"])

prop("C08","Outgoing message envelopes are self-consistent",
 "In every message sent, the segments are numbered 1, 2, 3, ... without gap or repetition in the order in which they appear on the wire, including signature header and trailer when present. The size announced in the message header equals the number of bytes of the whole serialised message, and the serialised message is exactly header, optional signature header, body segments in order, optional signature trailer and message end. The message number in the message end equals the one in the message header.",
 ["inputs","configurations"],"every list of body segments (absent ones included), signed or unsigned",
 "Tests check sizes and positions of two or three fixed messages.",
 ["message/message.go","segment/message_header.go","segment/message_end.go","dialog/dialog.go"],
 [("numbering","message/message.go SetSegmentPositions"),("size","message/message.go SetSize"),("serialisation","message/message.go MarshalHBCI")],
 None,["bytes handed to the transport"])

prop("C09","Signing and encryption wrap the message without altering it",
 "The content that is encrypted is exactly the signature header (if any), the body segments in order and the signature trailer (if any), and decrypting what was encrypted restores those bytes. The bytes handed in for encryption or decryption are neither modified nor shared with the result. In the PIN/TAN method an empty PIN is refused with an error instead of sending a message, the signature trailer carries the PIN, and signature header and trailer carry the same control reference.",
 ["inputs","configurations"],"every message content, PIN, key name, client system id and security function",
 "Tests use one fixed message and PIN.",
 ["message/message.go","message/crypto.go","message/signature.go","message/encryption.go","domain/key.go"],
 [("Encrypt/Sign","message/message.go"),("PIN/TAN providers","message/crypto.go, message/signature.go"),("PIN key","domain/key.go PinKey")],
 None,["encrypted payload, decrypted payload, signature and encryption segments"])

prop("C10","Messages of a dialog are numbered and addressed consistently",
 "Every dialog is opened by a message with dialog id 0 and message number 1. Each further message of the dialog, including the one that ends it, carries the dialog id the institute assigned in its opening response and the next consecutive message number.",
 ["histories"],"every history of dialog operations on one dialog object, every institute-assigned dialog id, including failing and repeated operations",
 "Tests run single short dialogs; the numbering is a property of the whole history of calls.",
 ["dialog/dialog.go"],
 [("numbering","dialog/dialog.go nextMessageNumber, newBasicMessage"),("opening and ending","dialog/dialog.go init, anonymousInit, SyncClientSystemID, end, anonymousEnd")],
 [("messageCount","number of the last message of the current dialog","dialog/dialog.go dialog"),("dialogID","id the current dialog is addressed with","dialog/dialog.go dialog")],
 ["messages handed to the transport"])

prop("C11","Institute and transport errors always reach the caller",
 "If the institute's response to an operation contains an acknowledgement with an error code, the operation returns an error that carries the text of every such acknowledgement, and no result. If the transport fails or a response cannot be decoded, the operation returns an error and no result. Acknowledgements that are successes or warnings alone never make an operation fail.",
 ["inputs","histories","fault_sequences"],"every combination of acknowledgements (message and segment level, any position) in every response of a dialog, every transport failure point",
 "Tests cover a few responses with one error acknowledgement; the guarantee is over all acknowledgement lists and all steps of a dialog.",
 ["dialog/dialog.go","client/client.go","domain/acknowledgement.go","message/decryption.go"],
 [("error collection","dialog/dialog.go SendMessage, init, end, SyncClientSystemID, SendAnonymousMessage, anonymousInit, anonymousEnd"),
  ("collection of acknowledgements","message/decryption.go NewDecryptedMessage")],
 None,["error returned by dialog and client operations"])

prop("C12","Acknowledgements are decoded and classified faithfully",
 "An acknowledgement field is decoded to the code, element reference, text and parameters the institute wrote, with escape sequences resolved, and a field without a numeric code is rejected with an error. Codes 1 to 999 are successes, 3000 to 3999 warnings and 9000 and above errors, and no code belongs to two classes. A response yields all acknowledgements of its message-level segment followed by all of its segment-level ones in order, segment-level ones carrying the number of the segment they refer to.",
 ["inputs"],"every code, text and parameter list, every number of acknowledgements and acknowledgement segments",
 "Tests decode a few literal acknowledgements without escape sequences and check a few codes.",
 ["domain/acknowledgement.go","element/acknowledgement.go","segment/acknowledgement.go","message/decryption.go"],
 [("classification","domain/acknowledgement.go IsError, IsWarning, IsSuccess"),("decoding","element/acknowledgement.go UnmarshalHBCI, Val; segment/acknowledgement.go"),("collection","message/decryption.go NewDecryptedMessage")],
 None,["decoded acknowledgements"])

prop("C13","Requests use the newest segment version both sides support",
 "For every set of segment versions the institute advertises, a balance, transaction or status request is built with the highest advertised version that the library implements for that kind of request. If there is none, an error is returned instead of a request.",
 ["inputs","configurations"],"every list of advertised versions in every order, every request kind, national and international accounts",
 "Tests try two or three version lists per request kind.",
 ["segment/hbci_version.go","segment/account_transaction.go","segment/account_balance.go","segment/status_protocol.go"],
 [("version selection","*RequestBuilder functions"),("advertised versions by segment id","segment/hbci_version.go NewBuilder and builder methods")],
 None,["version in the header of the built request"])

prop("C14","Paged results are fetched completely and in order",
 "When a response announces further data, the operation repeats the same request with exactly the continuation reference the institute gave, and continues until a response announces none. The result is the concatenation of the data of all pages in the order in which they were received. If any page fails, an error is returned and no partial result.",
 ["histories","inputs","fault_sequences"],"every number of pages, every continuation reference text, failure at any page",
 "Tests fetch at most two pages with a plain reference and never check which reference the second request carries.",
 ["client/client.go","swift/unmarshal.go","element/acknowledgement.go"],
 [("paging","client/client.go accountTransactions, SepaAccountBalances"),("merging pages","swift/unmarshal.go MergeMT940Messages")],
 None,["requests sent and results returned by client operations"])

prop("C15","IBAN check digits are generated and verified correctly",
 "For every country code and account number, a generated IBAN is the country code, two check digits and the account number in upper case, such that the ISO 7064 mod-97 checksum equals 1, and it is accepted as valid. Validating an arbitrary string never crashes and accepts it only if its checksum is correct, and every single-digit alteration of a valid IBAN is rejected. The printed form is the IBAN in groups of four separated by single spaces.",
 ["inputs"],"every country code, account number and candidate string, of every length and content",
 "Tests check a few known IBANs; correctness of the checksum is an arithmetic law over all strings.",
 ["iban/iban.go"],
 [("generation","iban/iban.go New, NewGerman"),("validation","iban/iban.go From, IsValid, Valid"),("printing","iban/iban.go Print")],
 None,["IBANs returned, validity verdicts"])

prop("C16","Booked amounts and balances keep their sign and value",
 "A debit entry of an account statement is reported with a negative amount and a credit entry with a positive one, each with exactly the magnitude and currency stated. Balances, in statements and in balance responses, follow the same rule, and a balance written to the wire and read back keeps sign, magnitude, currency and date.",
 ["inputs"],"every amount, sign indicator, currency and entry, in statements and in balance fields",
 "Tests use a few statements whose opening and closing balances are positive.",
 ["swift/mt940.go","element/group_data_element_group.go","segment/account_balance.go"],
 [("statement entries","swift/mt940.go AccountTransactions, BalanceTag.Balance"),("balance field","element/group_data_element_group.go NewBalance, Balance, UnmarshalHBCI")],
 None,["amounts of returned transactions and balances"])

prop("C17","Statement dates resolve to the right calendar day",
 "A statement's six-digit date denotes that day of the current century, and a booking date given only as month and day denotes the occurrence of that day closest to the entry's value date, so entries around the turn of a year are booked in the right year. Dates that do not exist in the calendar are rejected with an error, except that the 30-day-month conventions 29 and 30 February are accepted and reported as the calendar day they overflow to.",
 ["inputs"],"every pair of value date and booking date, every malformed date",
 "Tests use a handful of dates and only one crossing of the year boundary.",
 ["swift/mt940.go"],
 [("date parsing","swift/mt940.go parseDate, TransactionTag.Unmarshal, BalanceTag.Unmarshal")],
 None,["value and booking dates of returned transactions"])

prop("C18","Statement data splits losslessly into messages and tags",
 "Splitting any byte sequence as account statement data terminates and never crashes. Its tokens reproduce the data from the first byte without loss, duplication or reordering, so the statement messages found are consecutive unmodified pieces of the data and each tag carries its identifier and its complete value up to the next tag boundary. Data that ends inside a tag is reported as an error.",
 ["inputs"],"every byte sequence of every length",
 "Tests scan a few fixed statements; losslessness and termination are over all byte strings.",
 ["token/swift_lexer.go","swift/message_extractor.go","swift/tag_extractor.go"],
 [("scanner states","token/swift_lexer.go"),("message and tag extraction","swift/message_extractor.go, swift/tag_extractor.go")],
 None,["tokens, statement messages, tags"])

prop("C19","Statement entries are complete, in order and rightly attributed",
 "Every entry of a statement yields exactly one reported transaction, in statement order, with the account, opening and closing balance of its own statement. A detail record belongs to the entry that directly precedes it, never to another one, and a second detail record for the same entry is rejected. Several statements yield their transactions in the order of the statements, and a malformed statement yields an error instead of a partial result or a crash.",
 ["inputs"],"every number of statements, entries and detail records, every malformed statement",
 "Tests parse a few fixed statements.",
 ["swift/mt940_unmarshaler.go","swift/mt940.go","swift/unmarshal.go"],
 [("assembly","swift/mt940_unmarshaler.go Unmarshal"),("reporting","swift/mt940.go AccountTransactions; swift/unmarshal.go UnmarshalMT940")],
 None,["returned transactions"])

prop("C20","Structured entry details are recovered field by field",
 "The detail record of a statement entry is decoded so that each coded subfield (booking text, primanota, purpose lines in order, counterparty bank, account and name, further purpose lines) carries exactly the text between its code and the next subfield code, with line breaks removed. Subfields that are absent stay empty, and a record without the leading three-digit transaction code is rejected with an error, never a crash.",
 ["inputs"],"every set of subfields with every content, and every malformed record",
 "Tests decode a few literal records.",
 ["swift/element.go"],
 [("subfield decoding","swift/element.go CustomFieldTag.Unmarshal")],
 None,["decoded details"])

prop("C21","Transport encodings are transparent",
 "With the Base64 or character-set layer, what the wrapped transport receives is the encoding of exactly the request body, and what the caller reads is the decoding of exactly the response body; an error of the wrapped transport is passed on as it is. The logging layer forwards request and response bodies byte for byte whether or not they can be parsed. Converting text to ISO-8859-1 and back, or any bytes to text and back, is the identity.",
 ["inputs","configurations"],"every request and response body (any bytes, any length), every failing inner transport",
 "Tests send one or two short bodies per layer.",
 ["transport/middleware/encoding.go","transport/middleware/logging.go","transport/https/https.go","charset/convert.go"],
 [("layers","transport/middleware/*.go"),("charset conversion","charset/convert.go")],
 None,["bodies seen by the inner transport and by the caller"])

prop("C22","Bank lookup returns the data of exactly the requested bank",
 "Looking up a bank code returns an entry whose bank code equals the requested one if the directory has any, and an empty entry otherwise. The protocol version of an entry is the newest one its version name and version number state, and an unknown version name or number is reported as an error rather than guessed.",
 ["inputs"],"every bank code, every version name and number, every directory content",
 "Tests look up a few codes and versions.",
 ["bankinfo/bank_info.go","client/client.go"],
 [("lookup","bankinfo/bank_info.go FindByBankID"),("version parsing","bankinfo/bank_info.go hbciVersion, parseVersionName, parseVersionNumber")],
 None,["returned bank entry and version"])

prop("C23","Malformed institute data is rejected with an error, not a crash",
 "Whatever bytes an institute sends, splitting them into segments and fields and decoding segment headers, message headers, acknowledgements and the basic field types returns either a result or an error. None of these steps crashes or fails to terminate.",
 ["inputs"],"every byte sequence given to each decoding step",
 "Tests feed well-formed data and a few chosen malformed ones.",
 ["token/lexer.go","message/segment_extractor.go","message/unmarshaler.go","element/*.go","segment/*_unmarshaler.go"],
 [("scanning, splitting and decoding","token/lexer.go, segment/element_extractor.go, element/*.go UnmarshalHBCI")],
 None,["panics and errors of decoding functions"])

prop("C24","Dates and timeframes survive their text, JSON and query forms",
 "A date written as text or JSON, and a timeframe written as JSON or as query parameters, is read back as the same calendar days. A query lacking one of its bounds or with a malformed bound is rejected with an error. Building a date from any point in time keeps that point's own calendar day and drops the time of day.",
 ["inputs"],"every calendar day of years 1 to 9999, every pair of days, every point in time in every location, every malformed input",
 "Tests use a handful of dates.",
 ["domain/time.go"],
 [("date and timeframe codecs","domain/time.go")],
 None,["dates and timeframes read back"])

prop("C25","Advertised capabilities and accounts are recorded as sent",
 "After a dialog has been opened, the recorded parameter data equals what the institute sent: its bank parameter version, the list of advertised parameter segments with their versions in order, which business transactions need a TAN, the user data version and the accounts with their fields. A response without such data leaves the previously recorded data unchanged.",
 ["inputs","histories"],"every parameter segment, transaction list and account list an institute sends, every sequence of responses with and without parameter data",
 "Tests parse one or two recorded responses.",
 ["dialog/dialog.go","segment/common_bank_parameter_data.go","segment/user_parameter_data.go","segment/pin_bpd.go","element/bank_parameter_data.go","message/decryption.go"],
 [("recording","dialog/dialog.go parseBankParameterData, parseUserParameterData"),("advertised segments","message/decryption.go SupportedSegments")],
 None,["recorded parameter data"])

prop("C26","Iterating field lists never leaves their bounds",
 "Iterating a list of tokens or of raw fields yields every item exactly once, in order, then reports its end on every further call without crashing. At any time the unread remainder is exactly the items not yet yielded.",
 ["inputs","histories"],"every list and every sequence of iterator calls",
 "Tests walk one or two short lists.",
 ["internal/iterator.go","token/token.go"],
 [("iterators","internal/iterator.go arrayIterator; token/token.go Iterator")],
 None,["items yielded"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
