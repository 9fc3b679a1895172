#!/usr/bin/env python3
"""writes known_findings.json (hashes looked up by commit subject)"""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = dict(l.split(' ', 1)[::-1] for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines())
F = '''C01|pack Fixed and IPADDR fields without a NUL terminator|Fixed and IPADDR fields went out with a NUL byte too many, shifting every field behind them (RequestXfer.. with any Fixed field)
C06|read appended acks in network byte order|appended ack ids were read little-endian, acking packets never sent
C06|find the message number behind the extra header|a datagram with an extra header was decoded as the message its extra header spells
C04|report truncated datagrams as MessageDeserializationError|truncated datagrams raised IndexError/struct.error/AttributeError out of deserialize
C23|let the serializer use a custom message template|UDPMessageSerializer(message_template=...) raised instead of using the template
C03|check for an unknown message before using its template|serialising a message of unknown name raised AttributeError out of the dispatcher
C01|serialize the packet id as the unsigned number it is read as|packet ids of 2**31 and above could not be serialised
C06|append the acks that the ack flag announces|outgoing datagrams had the ack flag without any appended ack
C06|do not flag packets as zero-coded that are not|messages with Zerocoded templates went out flagged zero-coded but unencoded
C01|serialize messages with no instance of a variable block|a message without instance of a Variable block could not be serialised
C03|refuse messages that do not fit their template|missing fields, too many repeats, overlong or wrongly sized values were encoded as corrupt datagrams
C10|heed the reliable and ack flags of packets that are not parsed|reliable datagrams of unhandled or banned messages were never acknowledged, and acks on them were lost
C09|pass message and host in order in send_retry|send_retry raised, its arguments being swapped
C11|let PacketAck messages ack our reliable packets|PacketAck messages acked nothing
C30|provide a message handler even when packets are not to be handled|a dispatcher with HANDLE_PACKETS off had no message handler and its first receive raised
C08|fall back to the embedded template and message.xml as announced|without the files next to the package the announced fallback was never taken
C08|apply a custom message.xml to the packets sent and received|a caller's message.xml was not used for received or sent packets
C28|give each sender its own host|get_sender returned one Host object whose address changed with every datagram
C28|return a string from NetUDPClient.__repr__|repr of a NetUDPClient raised
C13|notify all subscribers even if one unsubscribes meanwhile|a handler that unsubscribed during a notification made its successor miss it
C13|NameError in Event.unsubscribe, AttributeError in clearSubscribers|unsubscribing an unknown handler and clearing subscribers raised
C14|do not swallow a KeyError raised by a subscriber|a KeyError raised by a subscriber was taken for a message nobody subscribed to
C15|do not deliver the previous events again when a poll fails|after a failed poll the events of the poll before were delivered again
C16|finish stopping the event queue when the last ack fails|a failing final acknowledgement left the client forever stopping
C15|keep handling event queue events after one that fails|an event that could not be handled made the queue drop the rest and stop
C18|stop monitors of a message manager that has no event queue|stop_monitors raised AttributeError when the manager had no event queue
C18|keep the UDP connection alive when a malformed packet arrives|one malformed packet ended the manager's UDP monitor for good
C16|stop an event queue whose coroutine has not started yet|stopping before the first turn had no effect: it polled for ever
C22|import the exceptions that the template parser raises|template errors surfaced as NameError
C26|include all instances of a repeated block in Message.to_dict|to_dict kept only the last instance of a repeated block
C26|render non-ASCII text and Fixed data of odd length|rendering a message with such data raised
C26|AttributeError in Message.get_var|get_var always raised
C24|give UUID the inequality and hash that belong to its equality|equal UUIDs were unequal with != and hashed differently
C21|accept false LLSD values, report all malformed LLSD as DeserializationFailed|falsy documents were refused and some malformed ones raised other exceptions
C19|send the custom headers of a capability GET|custom headers of a capability GET were dropped
C20|pass the settings of a seed capability on to the capabilities it gets|capabilities from a seed capability ignored its settings
C30|pass the settings of a message manager on to its event queue|the manager's event queue ran with default settings
C12|resend reliable packets that are not acked|resending raised and no packet was ever resent
C23|give parsed Low frequency templates their full message number|Low frequency templates carried a message number that is not the one on the wire
C21|report malformed LLSD whose parser error is not ASCII|such malformed input raised UnicodeEncodeError
C30|log capability contents that are not ASCII|verbose capability logging raised for such contents
C26|render messages with unicode names and non-ASCII data|rendering such messages raised UnicodeDecodeError
C30|log packets with unicode names and non-ASCII data|verbose packet logging raised for such packets
C22|ignore comments behind other text in the message template|a comment behind text became part of the definition or cut it off
C22|report template fields without a valid size as parsing errors|Fixed and Variable fields without a valid size raised IndexError/ValueError or were accepted
C31|let waits in the main loop end|Wait in the main loop, where nothing can yield, never ended
C35|render errors whose parameter is a tuple|an error given a tuple raised TypeError when it was rendered
C34|unpack vectors and quaternions in the byte order asked for|Vector3 and Quaternion were unpacked little endian whatever order was asked for
C34|report vectors cut short as unpacking errors|an LLVector3d or LLVector4 cut short unpacked to a shorter tuple
C36|keep acks collected while others are being sent|an ack collected while an ack round gave way was dropped
C36|resend no packet acked while another one was being resent|a packet acked while a round gave way was retransmitted, or the round raised KeyError
C36|keep a reliable packet under the id it was sent with|a message sent again during its send was retransmitted under the wrong id and never settled
C36|resend no packet acked before its send returned|a packet acked before its first send had returned was retransmitted afterwards
C33|ack rounds forget circuits removed while they are sending|a circuit removed while an ack round was sending had its acks and retransmissions sent all the same, and came back
C28|receive datagrams of more than 10000 bytes whole|datagrams of more than 10000 bytes were received cut off
C19|parse LLSD responses whose content type has a space before its parameters|such a response raised DeserializerNotFound
C19|report responses without a content type as having no deserializer|such a response raised KeyError
C26|render messages as LLSD by the dict form they have|Message.to_llsd raised AttributeError
C22|read the version of a template from an indented line|an indented version line was not recognised, and its template misread
C10|keep circuits at their address when the caller's host object changes|acks and retransmissions went to the address the caller's Host object was given afterwards
C08|take the default flavor for messages of message.xml without one|messages whose message.xml entry has no flavor raised KeyError when sent or received'''
fixed = []
for l in F.splitlines():
    p, s, w = l.split('|')
    fixed.append('fixed: property=%s %s %s' % (p, log.pop('fix: ' + s), w))
left = [s for s in log if s.startswith('fix:')]
assert not left, left
old = json.load(open(os.path.join(ROOT, 'known_findings.json')))
json.dump({'known': old['known'], 'fixed': fixed}, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
