"""The checks: property id -> obligations and description."""
from . import checks_structs as S
from . import checks_frames as F

CHECKS = {}

BASE = ("Forward abstract interpretation of the current Python sources (syntax trees; nothing is executed): every input is an unknown, "
        "each bit of each value is kept as a Boolean function of the unknown input bits, states are joined at every merge point and "
        "runs of bytes of unknown length stay symbolic runs. ")
TRUST = ["the analyser's model of Python 2 semantics and of the library functions used (struct, bitstring, cerberus, enum, logging)",
         "callers pass arguments of the kinds named in the recipe table (numbers of bounded width, booleans, members, objects, lists of bytes)"]
AI = 'static analysis: abstract interpretation of the syntax trees'


def reg(prop, obligations, explanation, rule, technique=AI + ' (bit-level value domain)', note=None, assumptions=TRUST):
  CHECKS[prop] = dict(obligations=obligations, explanation=explanation, rule=rule, assumptions=list(assumptions), technique=technique,
                      note=note or ('Holds for every value of the inputs named in the obligations, by analysis of the source alone. Trusts: '
                                    + '; '.join(assumptions) + '. What the analysis could not decide is listed as undecided in the evidence.'))


NOT_APPLICABLE = {
}

reg('C01', S.c01, BASE + "Each action is built from unknown constructor arguments, serialised, followed by unknown bytes, parsed by the public command parser and compared field by field; file data also with lengths around every boundary of the length coding.",
    "value-changed / parse-raises / extent: no field may differ, nothing may raise, exactly the serialised bytes are read")
reg('C02', S.c02, BASE + "Each system file is built from unknown arguments, serialised, parsed back and compared field by field.",
    "value-changed / parse-raises / extent")
reg('C03', S.c03, BASE + "Each structure is built from unknown arguments, serialised, parsed back and compared field by field.",
    "value-changed / parse-raises / extent")
reg('C04', F.c04, BASE + "Each frame is built from unknown field values that agree with its control flags, serialised and parsed back.",
    "value-changed / parse-raises / extent")
reg('C25', F.c25, BASE + "The foreground frame parser is analysed on unknown header bytes; where it calls the command parser the stream position and the length handed over are compared with the declared length. "
    "Frames with every address form, origin form and control flag are also parsed end to end.",
    "length-accounting: position + length handed inwards == 1 + declared length, for every header; extent / value-changed end to end")

from . import checks_serial as SER
reg('C05', SER.c05, BASE + "The frame builder is analysed on commands of any size with an arbitrary counter.",
    "layout / counter / too-long / refused")
CUT = ("The public parse entry is analysed on an arbitrary buffer (whose bytes and length are unknown) in an arbitrary counter state; loops of the receiver are cut at their back edge, where the buffer "
       "must have become strictly shorter, so what is shown holds for each parse attempt of any history. The command parser is summarised as C10 establishes it. ")
reg('C06', SER.c06_all, BASE + CUT, "unverified: delivered => sync byte, version, complete payload and checksum of that payload")
reg('C07', SER.c07_all, BASE + CUT, "incomplete / lost: a proper prefix leaves everything unchanged and two pieces are delivered like one")
reg('C08', SER.c08_all, BASE + CUT + "Long streams of known bytes (hundreds of frames or garbage bytes, every length, byte by byte) are evaluated whole, with unknown counters.", "raises / no-progress / stall / resync / lost")
reg('C35', SER.c35_all, BASE + CUT + "The frame builder is analysed on commands of any size. The checksum function itself is named by the source and taken to be what its name says; that a generator of degree 16 with a constant term and the factor x + 1 "
    "detects every burst of at most 16 bits and every odd number of wrong bits is a theorem.",
    "undetected: delivered => the two checksum bytes are all 16 bits of a checksum with such a generator over exactly the declared payload; every frame built carries it")
reg('C09', SER.c09_all, BASE + CUT, "extent: remaining buffer == bytes after the declared payload")

from . import checks_alp as ALP
reg('C10', ALP.c10, BASE + "The command parser is analysed on unknown bytes with an unknown declared length: per operation code with any operand bytes, and over several actions of any extent.",
    "extent: accepted => position == 8 * declared length")
reg('C11', ALP.c11, BASE + "Every operation class is instantiated with unknown operands; the action parser is analysed on each of the 64 codes followed by unknown bytes.",
    "code-shared / code-range / misread / refusal / operand")
reg('C12', ALP.c12, BASE + "Every system file is built from unknown arguments and the declared length is compared with the size of its serialisation and of what its parser takes.", "length")
reg('C13', ALP.c13, BASE + "The registry and numbering tables are evaluated from source; the content parser of each entry is analysed on unknown content.",
    "number / number-shared / unregistered / entry-id / entry-type / entry-parser")
reg('C14', ALP.c14, BASE + "Every factory helper is analysed with unknown arguments for every interface; the bytes of the command are compared with the expected sequence of components.", "bytes / tag / factory-raises")
reg('C15', ALP.c15, BASE + "Commands are built from every sequence of up to three actions (four in the thorough tier) of the kinds status, tag request, tag response and other, with unknown contents, and asked for their link status.",
    "duplicate / metadata / refusal / link-status")

from . import checks_values as V
reg('C16', V.c16, BASE + "Every structure, operand, operation and file is constructed from unknown arguments much wider than its fields and from arguments of a wrong type; what is accepted is serialised and parsed back.",
    "refusal / accepted / serialise-raises / truncated")
reg('C17', V.c17, BASE + "Each parser is analysed on unknown bytes laid out as the protocol says; every field of the result must be the number, flag or code its bits stand for, and the structure must serialise to the same bytes with reserved bits cleared.",
    "refused / misread / extent / rewritten")

from . import checks_objects as O
reg('C23', O.c23, BASE + "For every class with a comparison of its own two objects of unknown arguments are compared both ways with == and !=, with an object of the same arguments and with objects of every other type.",
    "complement / symmetry / unequal / indiscriminate / other-type / comparison-raises")
reg('C31', O.c31, BASE + "For each of the eight exponents the 32 mantissas are one unknown of five bits; expansions and compressions are compared with mantissa times four to the exponent.", "expand / compress / raises")
reg('C24', O.c24, BASE + "The text of every channel header and mode is computed from the source and given to the reader; a channel's index is one unknown of 16 bits; readers are also analysed on texts of unknown characters.",
    "text-changed / refused / ambiguous / unknown-accepted")
reg('C18', O.c18, BASE + "Objects carry the analysis step in which they were made. Histories of construction, serialisation, description, viewing, extension and parsing are analysed; "
    "every store into an object, list, table, class or module variable that is older than the step and is not the object operated on is reported.", "foreign-change")
reg('C27', O.c27, BASE + "Every validatable type is built from unknown arguments and its dictionary view is compared field by field with the object; for every enumeration of the library and every member what the registered JSON handler writes is given to its reader.",
    "view / incomplete / changed / unregistered / json")
reg('C30', O.c30, BASE + "Every type with a textual description is built from unknown arguments and from its defaults, in every shape with and without optional parts; commands are also received from unknown bytes with every operation. "
    "The text of the object and of everything it holds is computed from the source.", "describe-raises / describe")
reg('C33', O.c33, BASE + "For every registered file number, content of unknown bytes (the whole file, one byte less, one more, one, none, and any number from any offset) is put into a response; the response is compared before and after, "
    "and what it reports as decoded with what the parser of that file makes of the content. Unregistered file numbers are one unknown.", "decode-raises / response-changed / half-decoded / misdecoded / not-decoded")
reg('C32', F.c32, BASE + "The public parse entry of the link-layer receiver is analysed on unknown bytes of any number for both frame types; its loop is cut at the back edge, where the buffer must have become strictly shorter, "
    "so what is shown holds for each attempt of any history. The command parser is summarised as C10 establishes it. Valid frames are also received in two pieces.", "raises / incomplete / stall / extent / no-progress / lost")

from . import checks_modem as M
CONC = ("The caller, the reader thread and the device are analysed together from source: the reader is run where the caller writes or waits, reads return the bytes, errors or nothing the scenario says, "
        "tags, flags, message types and delays are unknown. ")
reg('C19', M.c19, BASE + CONC + "A synchronous or asynchronous request follows an earlier request that timed out, was answered partly, was answered, was refused, or was asynchronous; an answer with an unknown tag arrives with the first byte written.",
    "lost-or-foreign / tag-left / async-waits / sync-raises")
reg('C20', M.c20, BASE + CONC + "Batches of two (three) messages of every kind arrive while no request was made, while one is pending and after one of each outcome, with and without callbacks, connected or not.",
    "misrouted: the caller, the callbacks, the lists and the log each get exactly the messages due to them, in order")
reg('C21', M.c21, BASE + "Lock analysis of every call of the modem driver that writes: along every path, including those on which the builder or the device raises, the locks held at each acquire, release, write, flush and store into the frame builder are known exactly.",
    "unlocked / different-locks / counter-unlocked / counter-order / frame-split / lock-kept / deadlock")
reg('C22', M.c22, BASE + CONC + "Every sequence of up to three (four) reads, each of which returns a frame, nothing, noise or a damaged frame or fails with any serial error, with openings that fail too; frames in pieces; stopping during a read and while reconnecting.",
    "reader-died / reader-ended / no-reconnect / not-closed / delivery / reader-runs-on")
reg('C29', M.c29, BASE + CONC + "The handshake is answered with every sequence of up to two (three) actions of five kinds, with answers that are late, partial, missing or spread over attempts, in every mode.",
    "connected / reported / identity / asked-again / connect-raises")
reg('C28', M.c28, BASE + CONC + "The bridge is constructed from its command line with a stand-in for the broker's client; commands of unknown bytes are received one by one and together while publishing or logging fails at will.",
    "published / topic / payload / reader-died")
reg('C34', M.c34, BASE + CONC + "The clock is a number that grows by an unknown amount at every wait; the timeout is unknown; the final response arrives during the write, during any of the first waits or never.",
    "early / late / waits-on / answer")
reg('C38', M.c38, BASE + CONC + "The device is a stand-in that records how it is made, opened, cancelled and asked; the reader is run at the moment it would be woken up.",
    "port / rate / transparent / not-told / left-running / reads-on / stuck / not-waited / kept")

from . import checks_text as X
reg('C36', X.c36, BASE + "Every describable type is built twice from unknown arguments that differ in one field; the two texts are computed from the source, keeping every formatted value as a term, and compared part by part.",
    "not-told-apart / wrong-name")

from . import checks_report as R
reg('C37', R.c37, BASE + "One attempt of each receiver is analysed on arbitrary bytes, and its report compared with the bytes that came in, those delivered, skipped and kept; sequences of frames, garbage and partial frames are analysed uncut.",
    "unaccounted / skipped / parsed / buffered / lost / order / gap")

from . import checks_tools as T
reg('C39', T.c39, BASE + "The program is analysed from its top level with a command line its own declarations are applied to, on digits of unknown bytes with blanks between them; what it prints is compared with what the library's parsers make of those bytes.",
    "refused / raises / not-shown / misshown / shown-twice")

from . import checks_names as N
reg('C26', N.c26, "Whole-program resolution over the syntax trees of every module of the library, the modem driver, the tools and the utilities: every name, imported symbol, module and class attribute, attribute of the object itself, "
    "attribute of an object whose class is known from how it was made, constructor, function and method call is resolved against what the source and the modules it imports define; local variables and attributes set by constructors "
    "go through a path-sensitive definite assignment analysis with correlated tests.",
    "undefined / unbound / before-definition / no-module / no-symbol / no-attribute / no-such-attribute / call / unpack / read-too-early / not-set / sometimes-set / placeholder / import-cycle",
    technique='static analysis: name, attribute and signature resolution over the syntax trees with path-sensitive definite-assignment dataflow',
    note='Reports only what is resolved: values whose class is not known, computed attribute names and modules outside the tables (d7av/external.json) raise no report. Loops over a collection are taken to run at least once.')
