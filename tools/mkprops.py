#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of the property list)."""
import json, os
P = []
SC, MO, PD, UT, EX = "gsmmodem/serial_comms.py", "gsmmodem/modem.py", "gsmmodem/pdu.py", "gsmmodem/util.py", "gsmmodem/exceptions.py"
TE, TR, AC = "tools/gsmtermlib/terminal.py", "tools/gsmtermlib/trie.py", "tools/gsmtermlib/atcommands.py"

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {}),
                          "observe_at": observe, "hook_needed": None}})

p("C01", "Each command gets exactly its own complete response, one command at a time",
  "However many threads issue commands and however the replies are split or delayed, commands go out one at a time: nothing else is transmitted until the outstanding command has been answered or has timed out. "
  "The caller gets exactly the non-empty lines that arrived after its command, in order, up to and including the first line that is as a whole a final result (OK, ERROR, +CME ERROR: n, +CMS ERROR: n, COMMAND NOT SUPPORT); lines that only contain or begin with such text do not end a response. "
  "When the caller expects a prompt, the prompt ends the response as soon as it arrives, without waiting for an end of line, and the expectation does not outlive that command.",
  ["schedules", "inputs"], "every interleaving of client threads, reader thread and modem output; every split of the byte stream; every response text",
  "the tests issue one command at a time from one thread with replies already queued, so no interleaving or split is ever sampled",
  [SC], [("write lock held for the whole exchange", SC + ":write"), ("response buffer and completion event", SC + ":_handleLineRead"), ("final-result pattern", SC + ":RESPONSE_TERM")],
  ["serial port writes and reads", "return value of write()"],
  [("response slot", "the command currently waiting for its reply, if any", SC + ":SerialComms.write")])

p("C02", "Unsolicited lines reach the notification handler exactly once and in order",
  "Every non-empty line that arrives while no command is waiting for a reply is passed to the notification handler exactly once, unaltered and in arrival order, and never shows up in the reply of a later command. "
  "Lines that are available together are handed over in one notification, and a notification is handed over as soon as no more input is waiting, or at the latest when a reply line to the next command is handled. "
  "Nothing else ever reaches the handler: no reply line of a command that got its answer is reported as a notification.",
  ["schedules", "inputs"], "every burst structure of unsolicited lines, every point at which a command starts or times out around them",
  "the tests deliver one burst at a time on an idle link; a command racing with a burst is never exercised",
  [SC], [("notification batch flushed when nothing is waiting", SC + ":_handleLineRead")], ["notification callback", "serial port"],
  [("pending notification batch", "lines read but not handed over yet", SC + ":_notification")])

p("C03", "A command that times out reports what arrived and leaves the link usable",
  "A command that has not received its final result (or expected prompt) within its timeout fails with a timeout error exactly then: the error carries the lines received so far in order, or no data if there were none. "
  "Afterwards the link works as if the command had never been issued: the reader survives even if the reply arrives at the very moment of the timeout, later lines are treated as unsolicited, a stale prompt expectation does not split later lines, and the next command gets its own reply.",
  ["schedules", "fault_sequences"], "every race between the reply (or part of it) and the expiry of the timeout; every subsequent history",
  "the tests only time out a silent modem; the race of a late reply with the timeout needs a specific schedule",
  [SC], [("timeout branch of write()", SC + ":write"), ("reader's use of the response slot", SC + ":_handleLineRead")], ["exception raised by write()", "later replies and notifications"])

p("C04", "Closing and device failure are clean at every moment",
  "Closing the connection ends the reader and then closes the port, and no notification is delivered after it has returned; it may be called at any time, also after a failure. "
  "If reading from the device fails, the port is closed, the connection is marked dead and the fatal-error handler is called exactly once with that error; a clean close never calls it. "
  "If transmitting a command fails, the error reaches the caller and the link keeps working: notifications are still delivered, other threads can still send, and the next command gets its own reply.",
  ["fault_sequences", "crash_points", "schedules"], "a read or write failure or a close at every point of every exchange",
  "one test raises one read error on an idle link; failures during a command, on write, and close racing with traffic are not sampled",
  [SC], [("reader's exception handler", SC + ":_readLoop"), ("close()", SC + ":close"), ("write() clean-up", SC + ":write")], ["port state", "fatal error callback", "alive flag"])

p("C05", "Modem error replies become the right exceptions and busy replies are retried",
  "A command answered +CME ERROR: n or +CMS ERROR: n raises the matching exception type with that code and the command (11, 12 and 16 being the PIN-required, PUK-required and incorrect-PIN errors, CMS 330 the unknown-SMSC error), ERROR and COMMAND NOT SUPPORT raise a plain command error, and with error parsing switched off the reply is returned as is. "
  "Busy replies (code 515 or 14) are never surfaced: the identical command is sent again after a pause that grows with each consecutive busy reply, and the caller gets the outcome of the first attempt that is not busy. "
  "Once the busy phase is over, however it ended, later commands are delayed by at most a tenth of a second.",
  ["inputs", "fault_sequences"], "every error code, error type and command; every sequence of busy replies followed by any outcome",
  "a handful of codes and one busy/OK sequence are sampled",
  [MO, EX], [("error parsing and retry in write()", MO + ":GsmModem.write"), ("specialising exception constructors", EX)], ["exceptions raised", "commands and times on the serial line"],
  [("command pacing delay", "extra delay added after busy replies", MO + ":_writeWait")])

p("C06", "The SIM PIN is sent only when required, once, and before anything needing it",
  "While connecting, the PIN is transmitted only if one was supplied and the SIM reports that it is not ready, at most once per connection attempt and exactly as supplied, whether the modem reveals the lock at reset or later and whether or not its status reply is properly terminated. "
  "If the SIM is locked and no PIN was given, connecting fails with the PIN-required error; if the PIN is refused, with the error the modem reports (incorrect PIN, PUK required), and no further PIN is sent. "
  "No command that needs an unlocked SIM is issued before the SIM is ready.",
  ["configurations", "fault_sequences"], "every modem profile, SIM lock state, PIN argument and order in which errors are reported",
  "three fixed PIN scenarios are tested against scripted replies",
  [MO], [("connect() reset handling", MO + ":GsmModem.connect"), ("PIN check", MO + ":_unlockSim")], ["commands on the serial line", "exception from connect()"])

p("C07", "Connecting leaves every kind of modem configured and its SMSC unchanged",
  "After a successful connection the modem, whatever its vendor and whatever it supports, has echo off, detailed errors on, full functionality, the SMS mode asked for, and, as far as it supports them, long operator names, delivery reports, a message storage it offers (preferring phone over SIM over report memory), new-message notifications, caller ID with extended ring format, and the vendor's call-status notifications. "
  "The SMS service centre number stored in the modem is the one it had before, or the one set by the user before connecting, even if the modem drops it during configuration. "
  "Rejection of any optional command never makes the connection fail.",
  ["configurations"], "every combination of supported and unsupported optional commands, list formats, storages, vendor families and initial settings",
  "eight canned modem transcripts are tested, mostly checking that expected commands appear",
  [MO], [("initialisation sequence", MO + ":GsmModem.connect"), ("SMSC preservation", MO + ":GsmModem.connect"), ("storage selection", MO + ":GsmModem.connect")], ["configuration state of the simulated modem after connect()"])

p("C08", "Sending an SMS is one atomic exchange per part and yields the modem's reference",
  "Each part of a message is announced with its exact length (or its destination in text mode), and its body followed by Ctrl-Z is transmitted right after the modem's prompt with no other traffic in between, even when other threads send messages or commands; without a prompt no body is ever transmitted. "
  "The parts go out in order; the returned message carries the destination, the text, the reference the modem reported for its last part and the status 'en route', and the next message is numbered one higher, wrapping from 255 to 0. "
  "An error or missing acknowledgement for any part reaches the caller, no further part of that message is sent, and the next message can be sent normally.",
  ["schedules", "inputs", "fault_sequences"], "every interleaving of concurrent senders, every text and destination, failure at every step",
  "the tests send from one thread; interleaved senders and mid-message failures are not sampled",
  [MO], [("send exchange under the write lock", MO + ":sendSms"), ("reference tracking", MO + ":sendSms")], ["bytes on the serial line per command", "returned message object"],
  [("message reference counter", "reference used for the next message", MO + ":_smsRef")])

p("C09", "Delivery reports update exactly the message they are about and wake its sender",
  "A delivery report updates the still-referenced sent message that has its reference and leaves all others alone: that message's status becomes delivered or failed as the report says, at whatever moment the report arrives after the message was accepted, including before the sender has started waiting. "
  "A send that waits for its report returns when the report for that message arrives and not for any other report, and raises a timeout error if it does not come in time. "
  "A report nobody is waiting for is passed once to the report callback, and every announced report is read from the announced storage and deleted from it exactly once.",
  ["schedules", "histories"], "every interleaving of sends, waits, timeouts and report arrivals, including several waiting senders and reference wrap-around",
  "the tests inject one report for one message at a convenient moment",
  [MO], [("report handling", MO + ":_handleSmsStatusReport"), ("waiting in sendSms", MO + ":sendSms"), ("weak registry of sent messages", MO + ":sentSms")], ["status of sent messages", "return of sendSms()", "report callback", "simulated message storage"])

p("C10", "Every received SMS is delivered to the callback exactly once and then deleted",
  "Every new-message indication leads to exactly one call of the received-message callback with the message stored at the announced place: its number, text, time and status. "
  "The message is removed from storage only after it has been read, and nothing else is removed, whichever storage each message is in, however many indications arrive close together, and whatever other operations run at the same time. "
  "A message that cannot be read is not deleted and does not prevent others from being delivered. "
  "Replying to a received message, from within the callback or later, sends exactly the reply text to the sender of that message.",
  ["schedules", "histories", "inputs"], "every interleaving of message arrivals in several storages with each other and with user operations",
  "the tests deliver one indication at a time",
  [MO], [("new message handling", MO + ":_handleSmsReceived"), ("storage selection", MO + ":_setSmsMemory"), ("notification dispatch", MO), ("replying", MO + ":ReceivedSms.reply")], ["received-message callback", "simulated message storage", "messages sent"],
  [("current read/delete storage", "what the library believes the modem's selected storage is", MO + ":_smsMemReadDelete")])

p("C11", "Listing, reading, deleting and processing stored messages acts on the right ones",
  "Listing stored messages returns exactly the messages of the requested read state in the requested storage, in order and with their content (including empty ones), skipping anything that cannot be decoded without disturbing the others; with deletion requested, only returned messages are removed unless everything was listed. "
  "Reading and deleting address the given position of the given storage, staying with the storage selected last if none is given, and bulk deletion accepts only flags 1 to 4. "
  "Processing stored messages hands each received message (or only the unread ones) to the received-message callback once and removes exactly those.",
  ["histories", "inputs", "configurations"], "every content of every storage, every sequence of operations, both SMS modes",
  "fixed three-message listings are tested",
  [MO], [("listing parser", MO + ":listStoredSms"), ("deletion", MO + ":deleteStoredSms, deleteMultipleStoredSms"), ("processing", MO + ":processStoredSms")], ["returned messages", "simulated message storage", "received-message callback"])

p("C12", "A USSD request returns the network's answer and the true session state",
  "A USSD request returns the network's reply to that request: the complete text (also if it spans lines, and empty if the network sent none) and whether the session is still open, whether the reply comes before or after the modem's acknowledgement and whether or not the modem adds a separate session-release message. "
  "It fails with the modem's error if the request is refused and with a timeout error if no answer comes in time; either way a later request works normally and is not answered by a stale reply from an earlier one that already completed. "
  "Replying within a session is possible exactly while it is open, and cancelling sends the cancel request only then.",
  ["inputs", "schedules", "histories"], "every reply format, every order of acknowledgement and answer, every sequence of requests, replies and timeouts",
  "three canned replies are tested",
  [MO], [("request", MO + ":sendUssd"), ("reply parsing", MO + ":_parseCusdResponse"), ("session methods", MO + ":Ussd")], ["returned object", "commands on the serial line"])

p("C13", "Outgoing calls follow the modem's call-status reports",
  "Dialling sends the number once and returns a call, registered as active under an identifier no other active call has, once the modem reports that it is being set up; if the modem answers the dial command with an error, that error is raised, and if no set-up is reported in time, a timeout error. "
  "The call is reported answered exactly when the modem reports that very call answered, and inactive and no longer registered when it reports it ended or rejected, with the status callback invoked for each change; hanging up sends the hang-up command only while the call is active and never affects another call. "
  "This holds for modems announcing call states in any of the supported vendor formats and for those that must be polled, where polling ends with the call.",
  ["histories", "configurations", "schedules"], "every order of set-up, answer, rejection, remote and local hang-up for every vendor family and several calls in sequence or parallel",
  "one dial/answer/hang-up script per modem is tested",
  [MO], [("dial()", MO + ":dial"), ("call status tables", MO + ":connect"), ("status handlers and polling", MO + ":_handleCallInitiated, _handleCallAnswered, _handleCallEnded, _pollCallStatus")], ["call objects", "status callback", "active call registry", "commands on the serial line"])

p("C14", "Incoming calls are announced with the right caller and counted per ring",
  "Each ring is reported once to the incoming-call callback with a call giving the caller's number, number type and call type as announced, or none of them when the network withholds them. "
  "Successive rings from the same caller are one call whose ring count goes up by one each time; a different caller, or the same caller after the call has ended, is a new call, and identifiers are unique among active calls. "
  "Answering and hanging up send the respective command only in a state where it makes sense, update the call's ringing, answered and active state, and remove an ended call from the active calls, whatever the ring announcement format.",
  ["histories", "configurations", "inputs"], "every sequence of rings from several callers mixed with answer, hang-up and outgoing calls, in plain and extended formats",
  "a few fixed ring sequences are tested",
  [MO], [("ring handling", MO + ":_handleIncomingCall"), ("incoming call methods", MO + ":IncomingCall")], ["incoming-call callback", "call attributes", "active call registry", "commands on the serial line"])

p("C15", "DTMF tones are sent exactly as asked and only in an answered call",
  "Sending tones in an answered call transmits all of them in order in the modem's own syntax, for that call, in one command, allowing time for each tone; in a call that is not answered, or has ended, it raises an invalid-state error and transmits nothing. "
  "If the modem reports that the operation is not allowed or there is no network service, an interruption error carrying the cause is raised, and any other error surfaces unchanged.",
  ["inputs", "configurations", "histories"], "every tone string, vendor syntax, call identifier, call state and error code",
  "short fixed tone strings and two error codes are tested",
  [MO], [("sendDtmfTone()", MO + ":Call.sendDtmfTone")], ["commands on the serial line", "exceptions"])

p("C16", "Waiting for network coverage ends with the truth about coverage",
  "Waiting for coverage returns the current signal strength as soon as the modem is registered (home or roaming) and reports a positive strength, and never earlier; a modem that cannot report registration is judged by signal strength alone. "
  "It fails at once if registration is denied or the modem is not searching, and with a timeout error when the given time has passed without coverage, not before that time and no more than one polling round after it. "
  "Without a timeout it waits indefinitely, and when it is over no timer of it stays behind.",
  ["histories", "inputs"], "every sequence of registration states and signal strengths and every timeout",
  "a few fixed sequences are tested",
  [MO], [("polling loop and timer", MO + ":waitForNetworkCoverage")], ["return value, exception and time", "commands on the serial line", "remaining threads"])

p("C17", "Modem queries and settings report and keep the modem's real values",
  "Each query (signal strength, manufacturer, model, revision, IMEI, IMSI, operator name, supported commands, service centre) returns the value the modem reports (identification texts as the line reported), in every response format modems use, and the documented 'unknown' value when the modem has none or rejects a query that is optional (revision, supported commands, a service centre that is not set); any other refusal is raised as the modem's error. "
  "Setting the service centre or the SMS mode changes the modem exactly when the value differs from the current one, is visible in later reads, and a setting the modem rejects leaves the reported value as it was. "
  "Settings made before connecting are applied on connecting.",
  ["inputs", "histories", "configurations"], "every response format and value; every sequence of set, get, failure and connect",
  "one value per query is tested",
  [MO, UT], [("query properties", MO), ("setters", MO + ":smsc, smsTextMode")], ["returned values", "commands on the serial line", "state of the simulated modem"])

p("C18", "An encoded outgoing SMS means what the caller asked for",
  "For every destination, text, reference, validity, service centre and flag combination, each message produced is a well-formed SMS-SUBMIT whose standard meaning is exactly the request: type and flags, reference, destination with its number type, alphabet, flash class, validity period and service centre, with the stated length equal to the octets after the service centre part. "
  "The default alphabet is used exactly when every character can be represented in it, extension characters included; all other text goes out as UCS2, with characters outside the basic plane as surrogate pairs. "
  "Relative validity is the longest encodable period not exceeding the request (the shortest possible one for shorter requests); periods beyond the maximum, absolute times without time zone and other types are refused.",
  ["inputs"], "all destinations, texts over all of Unicode, references 0-255, relative and absolute validities, service centres and flags",
  "a dozen fixed messages are tested",
  [PD], [("submit encoder", PD + ":encodeSmsSubmitPdu"), ("address encoding", PD + ":_encodeAddressField"), ("validity encoding", PD + ":_encodeRelativeValidityPeriod, _encodeTimestamp"), ("alphabet", PD + ":encodeGsm7")], ["bytes and lengths of the encoded messages"])

p("C19", "Long messages are split losslessly into valid parts",
  "A text that fits one message is sent as one without a concatenation header; a longer one is split into the smallest number of parts such that every part fits in 140 octets of user data, and joining the decoded parts in order gives back the exact text. "
  "All parts carry the same reference and the true total, are numbered 1 to the total in order, and are otherwise equal to the request. "
  "Neither the escape pair of an extension character nor a surrogate pair is ever divided between parts.",
  ["inputs"], "all texts: every length around each multiple of the part sizes, every position of extension or supplementary characters",
  "two fixed long texts are tested",
  [PD], [("segmentation in the submit encoder", PD + ":encodeSmsSubmitPdu"), ("concatenation header", PD + ":Concatenation")], ["bytes of the encoded messages"])

p("C20", "Decoding a received message yields its standard meaning",
  "Decoding any well-formed SMS-DELIVER, SMS-SUBMIT or SMS-STATUS-REPORT gives the values the standard assigns to its octets: type, service centre, address in all number types, protocol, text in the alphabet the message declares, user data header elements, time stamps with their quarter-hour zone, validity, reference, delivery status and length. "
  "Texts of every length, including empty ones, come out complete, whether or not a header precedes them and whatever character comes first or last. "
  "Decoding what the encoder produced returns what was asked for.",
  ["inputs"], "all well-formed messages: every header length, alphabet, text length, number type, time stamp",
  "about fifteen fixed messages are tested",
  [PD], [("decoder", PD + ":decodeSmsPdu"), ("septet unpacking", PD + ":unpackSeptets"), ("user data header", PD + ":_decodeUserData")], ["returned dictionary"])

p("C21", "Malformed message data is rejected cleanly or decoded leniently, nothing else",
  "For every octet string or text offered for decoding, the decoder either returns a complete result or raises the encoding error, never any other exception and never without terminating. "
  "Message data cut off before its mandatory fields are complete, with an unassigned message type or not in hexadecimal form is always rejected. "
  "What is returned for user data shorter than announced uses only octets actually present.",
  ["inputs"], "all octet strings, in particular every truncation and corruption of valid messages",
  "four malformed inputs are tested",
  [PD], [("decoder error handling", PD + ":decodeSmsPdu")], ["returned dictionary or exception"])

p("C22", "The character and octet codecs are exact inverses on their whole domain",
  "Packing septets and unpacking them, encoding text in the default alphabet, in UCS2 or as semi-octets and decoding it, and encoding header elements (concatenation, ports) and decoding them, return the original for every input in the domain (only a zero as the last of a multiple of eight septets cannot be told from padding). "
  "The encodings are those of the standard's tables, character by character. "
  "Text outside an alphabet is refused, or exactly the offending characters are left out if so requested; undefined escape codes never make decoding fail.",
  ["inputs"], "all septet strings of every length, packed after every number of fill bits, all of Unicode, all digit strings, all header element values",
  "a fixed set of strings is tested",
  [PD], [("septet packing", PD + ":packSeptets, unpackSeptets"), ("alphabet tables", PD + ":GSM7_BASIC, GSM7_EXTENDED"), ("semi-octets", PD + ":encodeSemiOctets, decodeSemiOctets"), ("information elements", PD + ":InformationElement")], ["return values of the codec functions"])

p("C23", "Time stamps keep the exact instant and quarter-hour offset",
  "Every time stamp in a message, in binary or in textual form, is returned as the local time it states together with its offset from UTC, exact to the quarter of an hour and with the right sign; encoding a time and decoding it again gives the same local time and offset. "
  "The three encodable ranges of relative validity periods decode to the periods the standard assigns to all 256 values. "
  "Time stamps that are no valid date are refused.",
  ["inputs"], "all dates, times and zones from -19:45 to +19:45; all validity octets",
  "six zones and a handful of dates are tested",
  [PD, UT], [("binary time stamps", PD + ":_decodeTimestamp, _encodeTimestamp, SmsPduTzInfo"), ("textual time stamps", UT + ":parseTextModeTimeStr"), ("relative validity", PD + ":_decodeRelativeValidityPeriod")], ["returned datetimes and offsets"])

p("C24", "The prefix tree behaves as a map from strings to values",
  "After any sequence of insertions, replacements and deletions, looking up, testing, counting and iterating over the tree gives exactly the entries a plain map would have, and missing keys are reported as such, also when keys are empty or prefixes of each other. "
  "Listing by prefix returns exactly the stored keys starting with it, each once; the longest common prefix is the longest string that all of them start with, and empty when there are none.",
  ["histories", "inputs"], "every sequence of operations over keys that share prefixes",
  "fixed sets of keys inserted in one convenient order are tested",
  [TR], [("tree operations", TR + ":Trie")], ["return values of the tree's methods"],
  [("tree nodes", "children by character plus compressed key and value", TR + ":Trie")])

p("C25", "The terminal sends exactly the line the user edited",
  "Whatever the user types, edits (cursor keys, home, end, backspace, delete) or recalls from history, pressing enter transmits exactly the resulting line without surrounding blanks followed by a carriage return, and nothing for a blank line or for the terminal's own commands. "
  "The history holds the last hundred entered lines in order, and up and down move through it one entry at a time without running off either end. "
  "Loading a file enters its lines the same way. Keys arriving together are taken one by one, and in raw mode every key but the exit key is transmitted as it is, enter as carriage return. No key sequence ends the terminal except its exit keys.",
  ["inputs", "histories"], "every sequence of keys",
  "no key sequence is tested; only start-up and the prefix tree are",
  [TE], [("input loop", TE + ":_inputLoop"), ("line editing", TE + ":_handleBackspace, _handleDelete, _cursorLeft"), ("history", TE + ":_cursorUp, _cursorDown, _addToHistory")], ["bytes written to the serial port per key"],
  [("input line and cursor", "current line being edited", TE + ":inputBuffer, cursorPos"), ("history", "previous lines and position", TE + ":history, historyPos")])

p("C26", "SMS entry and completion in the terminal do what the keys say",
  "After a send command and the modem's prompt the terminal is in message entry: enter transmits the text before the cursor and keeps editing, Ctrl-Z transmits the rest followed by Ctrl-Z exactly once, escape transmits escape only, and both return to command entry; without a prompt message entry is not begun, and outside it Ctrl-Z and escape transmit nothing. "
  "Tab never transmits anything: it replaces the line by the single known command it begins, or extends it to the longest common beginning of all that match, regardless of letter case, and otherwise leaves the line as it is. "
  "Help and listing commands transmit nothing and show every command they are asked about.",
  ["inputs", "histories"], "every sequence of keys mixed with modem prompts and time-outs",
  "not tested at all",
  [TE, AC], [("message entry", TE + ":_handleCtrlZ, _handleEsc, _doConfirmInput"), ("completion", TE + ":_doCommandCompletion"), ("help", TE + ":_printCommandHelp")], ["bytes written to the serial port per key", "screen output"],
  [("message entry flag", "whether a message is being typed", TE + ":_typingSms")])

p("C27", "The terminal's screen shows the line being edited and what the modem says",
  "Whenever the terminal waits for a key, the current row of the screen is the prompt (the modem's own during message entry) followed by exactly the line being edited, nothing of earlier or longer lines left over, with the cursor where the next character goes; right after a line was entered the row may still be empty. "
  "Every line the modem sends is on a row of its own, once and in order, whatever is being typed at that moment, refusals of a message included.",
  ["inputs", "histories"], "every sequence of keys and modem lines",
  "not tested at all",
  [TE], [("drawing the line", TE + ":_refreshInputPrompt, _removeInputPrompt"), ("modem lines", TE + ":_handleModemNotification"), ("cursor movement", TE + ":_cursorLeft, _cursorRight, _handleHome, _handleEnd")], ["characters written to the screen"],
  [("screen", "rows and cursor position", TE + ":inputBuffer, cursorPos, PROMPT, SMS_PROMPT")])

p("C28", "The command line tools do what they were asked and say truthfully how it went",
  "A tool called with missing or unknown arguments opens no port and fails; otherwise it uses exactly the port and speed given. It enters the PIN it was given only if the SIM asks for it, and says so and fails if a PIN is missing or wrong. "
  "sendsms asks for a message only with network coverage, giving up on coverage after about five seconds, and sends exactly the line typed to exactly the destination given, once; it reports success, with exit status zero, if and only if the modem accepted every part, with -d only after the delivery report came and as it says, giving up after fifteen seconds. "
  "identify-modem shows what the modem reports, each value under its name, and sends nothing that changes anything; with -d it shows every line of every response. "
  "gsmterm transmits what is typed, on a real console and serial port too, and leaves the console in the modes it found it in. Every other outcome is a non-zero exit status.",
  ["inputs", "faults", "histories"], "every command line, SIM state, history of coverage, modem response and delivery outcome",
  "the tools are not tested at all",
  ["tools/sendsms.py", "tools/identify-modem.py", "tools/gsmterm.py"], [("sendsms", "tools/sendsms.py:main"), ("identify-modem", "tools/identify-modem.py:main"), ("gsmterm", "tools/gsmterm.py:main"), ("console modes", TE + ":Console")],
  ["exit status", "standard output and error", "bytes on the serial port"])

p("C29", "Connecting again, to the same or another modem, works as the first time",
  "Once a connection has ended, closed or lost at any moment, connect() on the same object, to the same modem or another one, works as it would on a new object: the modem is set up by what it supports itself, and queries, calls, tones, USSD, message storages and sending follow this modem, whatever the earlier one was. "
  "No line, announcement or reply of the earlier connection, complete or partial, is delivered or taken for one of the new. Calls and USSD sessions of the earlier connection are over: they show it, acting on them sends nothing or is refused, and none is ever confused with a new one. "
  "What the user set (SMS mode, service centre) is applied again; what was only read from the earlier modem is not written to the new one. "
  "(Assumed: whatever was still running on the earlier connection, such as the library's own reading of a new message, has come to its end before connecting again.)",
  ["histories", "faults", "inputs"], "every sequence of modems, of operations during each connection and of ways in which it ends, in the middle of a line or of a command included",
  "the tests use one connection per object; state that survives into the next connection only shows in the next one, on a different modem",
  [MO, SC], [("connection set-up", MO + ":connect"), ("end of a connection", SC + ":close, _readLoop"), ("calls", MO + ":activeCalls, _handleCallEnded"), ("USSD session", MO + ":_endUssdSession"), ("storages", MO + ":_setSmsMemory")],
  ["bytes written to each modem's port", "results and exceptions of operations", "callbacks", "call and USSD objects handed out earlier"],
  [("modem facts", "what connect() found out about the modem", MO + ":GsmModem.connect"), ("calls in progress", "call objects by id", MO + ":activeCalls")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for r in P:
            f.write(json.dumps(r, ensure_ascii=False) + "\n")
    print(len(P), "properties")
