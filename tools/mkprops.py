#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Integer parameters accept exactly their range and read back what was written",
 "Writing a number to an integer parameter (8, 16 or 32 bits, signed or unsigned) in real value space succeeds exactly when the number lies within the range declared for that parameter, and reading it back as a number then gives exactly the value written, sign included. A write that is refused leaves every stored setting unchanged. In raw value space a number is accepted only if it is encodable on the parameter's size and within its range, negative values being given in two's complement of that size when written in hexadecimal.",
 ["inputs"], "every parameter size, signedness and declared range, every value, textual or numeric, in either value space",
 "The functional tests try a handful of values per size; the guarantee ranges over all 2^32 values, all ranges and both representations, including the sign-extension and truncation boundaries.",
 ["parameter/BaseIntegerParameterType.cpp", "parameter/IntegerParameterType.h", "parameter/ParameterType.cpp", "parameter/Parameter.cpp", "utility/convert.hpp"],
 [("range and size check before any store", "parameter/IntegerParameterType.h"), ("sign extension on read, masking on raw display", "parameter/ParameterType.cpp")],
 ["ElementHandle/ParameterHandle get/setAs*", "setParameter/getParameter remote commands"])
prop("C02", "Fixed-point parameters: Qn.m range, rounding and raw two's complement",
 "A fixed-point parameter Qn.m accepts, in real value space, exactly the real numbers of its representable interval [-2^n, 2^n - 2^-m]; the number read back is representable and differs from the one written by at most one quantum 2^-m. In raw value space the stored bits are given directly: the accepted integers are exactly those representable, in two's complement, on the parameter's size, hexadecimal ones giving the bit pattern itself, and they read back unchanged with their sign. A refused write stores nothing.",
 ["inputs"], "every format Qn.m with 1+n+m within the parameter's size (8, 16, 32 bits) and every real or raw value",
 "The fixed-point test script walks some formats with a few values around the bounds; formats times values cannot be enumerated, and rounding and saturation errors live at specific bit patterns.",
 ["parameter/FixedPointParameterType.cpp", "parameter/ParameterType.cpp"],
 [("range from integral/fractional sizes", "CFixedPointParameterType::getRange"), ("left-aligned? encode/decode and sign extension", "CFixedPointParameterType::asInteger/asDouble")],
 ["ParameterHandle get/setAsDouble", "setParameter/getParameter"])
prop("C03", "Floating-point parameters never hold a value outside their declared range",
 "A write to a floating-point parameter, by real number, by text or as raw 32-bit pattern, succeeds only if the resulting single-precision number lies within the declared minimum and maximum, a number of that range is never refused, and a refused write leaves the stored bits unchanged. A raw pattern that is accepted reads back as the same 32 bits and, in real value space, as the IEEE-754 number it denotes.",
 ["inputs"], "all 2^32 bit patterns (NaN and infinities included), all real and textual values, all declared ranges",
 "Tests use a few values in and out of a few ranges; the bit-pattern reinterpretation and NaN handling have to be right for every pattern.",
 ["parameter/FloatingPointParameterType.cpp", "utility/BinaryCopy.hpp", "parameter/ParameterType.cpp"],
 [("range check", "CFloatingPointParameterType::checkValueAgainstRange"), ("bit copy", "utility/BinaryCopy.hpp")],
 ["ParameterHandle get/setAsDouble", "setParameter/getParameter in raw and real value space"])
prop("C04", "Enum parameters hold only declared values and translate literals faithfully",
 "An enumeration parameter only ever takes a value that one of its declared value pairs carries: any other literal or number, in either value space, is refused and leaves the stored value unchanged. A literal written in real value space stores the number paired with it, and reading the parameter back in real value space yields a literal paired with the stored number. In raw value space a number may also be given as the bit pattern of the parameter's size, and what is read there can be written back.",
 ["inputs"], "every set of value pairs, every literal and every number, signed ones included",
 "Tests use one small enumeration; the guarantee is over arbitrary value-pair tables and arbitrary written values, including negative and size-truncated ones.",
 ["parameter/EnumParameterType.cpp", "parameter/EnumValuePair.cpp", "parameter/ParameterType.cpp"],
 [("validity lookup before the store", "CEnumParameterType::toBlackboard"), ("literal/numeric lookups", "CEnumParameterType::getLiteral/getNumerical")],
 ["ParameterHandle get/setAsInteger", "setParameter/getParameter"])
prop("C05", "A bit parameter touches only its own bits",
 "Setting a bit parameter stores the value in exactly the bits declared by its position and size within its block, and leaves all other bits of the block and all bytes outside the block unchanged; reading it returns exactly those bits. A value above the declared maximum or not encodable on the declared number of bits is refused without effect, and restoring or saving a configuration of a single bit parameter has the same isolation.",
 ["inputs", "histories"], "every block size, bit position, bit size, maximum and value, and every previous content of the block",
 "Tests set a few neighbouring bit fields to a few values; isolation has to hold for all 2^64 block contents and all positions and widths, including a field that fills its block.",
 ["parameter/BitParameterType.cpp", "parameter/BitParameter.cpp", "parameter/BitwiseAreaConfiguration.cpp", "parameter/BitParameterBlockType.cpp"],
 [("mask-and-merge read/modify/write", "CBitParameterType::toBlackboard/merge, CBitwiseAreaConfiguration")],
 ["blackboard bytes of the block before and after a set", "getParameter of sibling bit parameters"])
prop("C06", "Settings memory: a write changes exactly its own bytes, a read returns them",
 "Every elementary access to the settings memory stays inside it: a write of n bytes at an offset changes exactly those n bytes and nothing else and never the size, a read returns exactly the bytes at the place addressed, and an access that would cross the end of the memory never happens silently. Copying a block of settings in or out transfers exactly the addressed region, byte for byte.",
 ["inputs", "histories"], "all memory sizes, offsets, lengths and contents (integers of 1 to 8 bytes, buffers, strings, sub-region copies)",
 "Unit tests exercise a fixed small memory at a few offsets; the frame condition (every other byte unchanged) is over all sizes and offsets.",
 ["parameter/ParameterBlackboard.cpp", "parameter/ParameterBlackboard.h"],
 [("bounds assertion before each access", "CParameterBlackboard::assertValidAccess"), ("iterator copies", "CParameterBlackboard")],
 ["contents of a blackboard after each operation"])
prop("C07", "Parameter adaptations are bijective on the integers they produce",
 "With a linear adaptation (slope numerator, slope denominator, offset) the user value of a stored integer s is (s - offset) * denominator / numerator, writing a user value v stores the integer nearest to v * numerator / denominator + offset, so that writing the user value of s stores s again; with a logarithmic adaptation written values never store anything below the declared floor. A zero slope denominator or zero numerator is refused when the structure is loaded.",
 ["inputs", "configurations"], "all slopes, offsets and stored integers (for which the arithmetic stays exact)",
 "Tests instantiate a couple of adaptations with a couple of values; the inverse relation is over all coefficients and values.",
 ["parameter/LinearParameterAdaptation.cpp", "parameter/LogarithmicParameterAdaptation.cpp", "parameter/ParameterAdaptation.cpp"],
 [("fromUserValue/toUserValue pair", "parameter/ParameterAdaptation.cpp")],
 ["ParameterHandle get/setAsDouble on an adapted parameter"])
prop("C08", "Criterion types keep literals and numbers in one-to-one correspondence",
 "A selection criterion type never holds the same literal twice nor the same number for two literals; an addition that would is refused with an error and changes nothing. In an inclusive type only numbers with exactly one bit set can be added, and a literal is translated to the very number it was added with and back.",
 ["inputs", "histories"], "every sequence of additions and lookups, for both kinds of type",
 "Tests add a few pairs; uniqueness has to survive any history of accepted and refused additions.",
 ["parameter/SelectionCriterionType.cpp"],
 [("duplicate and bit-count checks before insertion", "CSelectionCriterionType::addValuePair")],
 ["addValuePair / getNumericalValue / getLiteralValue results"])
prop("C09", "A criterion holds the last state set and setting it applies nothing",
 "Reading a criterion returns the last state it was given; for an inclusive type the state is a set of bits whose textual form names exactly the set bits known by the type. Setting a criterion never changes any parameter or applied configuration by itself, its modification count grows by exactly one per actual change of state and is reset only by an application of configurations.",
 ["histories", "inputs"], "every sequence of criterion changes and configuration applications",
 "Tests change a criterion once or twice; the count and the no-immediate-effect guarantee are over all histories.",
 ["parameter/SelectionCriterion.cpp", "parameter/SelectionCriterionType.cpp", "parameter/SelectionCriteria.cpp", "parameter/SelectionCriteriaDefinition.cpp"],
 [("compare, store, count", "CSelectionCriterion::setCriterionState"), ("reset after application", "CParameterMgr::doApplyConfigurations")],
 ["getCriterionState", "status and listCriteria commands"])
prop("C10", "Application rules mean what they say: All/Any and the four comparisons",
 "A rule All{...} matches exactly when every sub-rule matches (an empty one always), a rule Any{...} exactly when at least one does (an empty one never), whatever the nesting. A comparison matches exactly according to the criterion's current state: Is on equality, IsNot on inequality, Includes when every bit of the value is set in the state, Excludes when none is; Includes and Excludes exist only for inclusive criteria.",
 ["inputs", "programs"], "every rule tree, every criterion kind, state and match value",
 "Tests evaluate a few rules on a few states; the semantics has to hold for every tree of any depth and width and every bit pattern.",
 ["parameter/CompoundRule.cpp", "parameter/SelectionCriterionRule.cpp", "parameter/SelectionCriterion.cpp"],
 [("early-exit evaluation over children", "CCompoundRule::matches"), ("comparison operators", "CSelectionCriterion::is/isNot/includes/excludes")],
 ["pending configuration shown by status", "applied configuration"])
prop("C11", "Application rules survive being printed and parsed again",
 "A rule accepted by the parser prints to a text which the parser accepts again and which denotes a rule with the same structure: same operators, same nesting, same criteria, same comparisons, same match values; the same holds for its XML form. A text which is not a well-formed rule over known criteria and values is refused with an error, the previous rule being kept, and never ends the process.",
 ["inputs", "programs"], "every rule text, well-formed or not, of any nesting",
 "Tests parse a few fixed rules; the round trip and the rejection have to hold for every text.",
 ["parameter/RuleParser.cpp", "parameter/CompoundRule.cpp", "parameter/SelectionCriterionRule.cpp", "parameter/DomainConfiguration.cpp"],
 [("parser state machine", "CRuleParser::parse"), ("dump", "CCompoundRule::dump, CSelectionCriterionRule::dump")],
 ["setRule/getRule commands", "domain XML export and import"])
prop("C12", "A domain applies its first applicable configuration, once",
 "When configurations are applied, each domain restores its first configuration, in declaration order, whose rule currently matches, and none if no rule matches; a configuration without a rule is never applied on its own. Without forcing, nothing is restored if that configuration is already the domain's last applied one; forcing always restores it; the last applied configuration is then the one restored, and the one reported.",
 ["histories", "configurations"], "every set of domains and configurations, every criteria state, every history of applications",
 "Functional tests use domains of two or three configurations; first-match, laziness and bookkeeping have to hold for all sizes and histories.",
 ["parameter/ConfigurableDomain.cpp", "parameter/ConfigurableDomains.cpp", "parameter/DomainConfiguration.cpp", "parameter/ParameterMgr.cpp"],
 [("first-match search", "CConfigurableDomain::findApplicableDomainConfiguration"), ("last applied comparison", "CConfigurableDomain::apply")],
 ["status command, domain logs, parameter values after applyConfigurations"])
prop("C13", "Sequence-aware domains synchronise element by element, others all at once",
 "On application, every domain that is not sequence aware restores all its settings before any synchronisation of them is performed, and their hardware is then synchronised together, each synchroniser at most once; sequence-aware domains come after, each of their elements being restored then synchronised one by one in the element sequence of the configuration. Setting an element sequence moves the listed elements to the front in the listed order, keeps the relative order of the others, never loses or duplicates an element, and refuses unknown or repeated elements.",
 ["histories", "configurations"], "every mix of domains, every element list and every requested sequence",
 "Tests have one or two elements per domain; ordering and permutation have to hold for any number.",
 ["parameter/ConfigurableDomains.cpp", "parameter/ConfigurableDomain.cpp", "parameter/DomainConfiguration.cpp", "parameter/AreaConfiguration.cpp", "parameter/SyncerSet.cpp"],
 [("two-pass application", "CConfigurableDomains::apply"), ("list splicing", "CDomainConfiguration::setElementSequence")],
 ["order of synchroniser calls", "getElementSequence"])
prop("C14", "Saving then restoring a configuration reproduces exactly its elements' settings",
 "Saving a configuration records the settings of all its elements, and restoring it later puts exactly those settings back, whatever happened in between, without changing the settings of any element which is not in the domain. Saving never changes the current settings, and a configuration is never applied before it holds valid settings for all its elements.",
 ["histories", "configurations"], "every element layout, every content, every history between save and restore",
 "Tests save and restore a few parameters; the frame and round trip are over every layout and byte content.",
 ["parameter/AreaConfiguration.cpp", "parameter/BitwiseAreaConfiguration.cpp", "parameter/DomainConfiguration.cpp", "parameter/ConfigurableDomain.cpp", "parameter/ParameterBlackboard.cpp"],
 [("copy between main and area memory", "CAreaConfiguration::copyTo/copyFrom"), ("validity flag", "CAreaConfiguration::_bValid")],
 ["getParameter / getConfigurationParameter before and after"])
prop("C15", "Domain membership stays consistent through add, remove, split and delete",
 "An element is listed in a domain exactly when the domain was recorded on that element and every configuration of the domain holds settings for it; adding refuses an element already in or owned through an ancestor, removing refuses an absent one, and a refused operation is reported as a failure and changes nothing. Adding an ancestor absorbs its already present descendants with their settings, splitting replaces an element by all its children with their settings, and the domain's synchronisers are always those of its elements.",
 ["histories", "configurations"], "every sequence of add, remove, split, create and delete operations",
 "Tests run a few operations; consistency is an invariant over every history.",
 ["parameter/ConfigurableDomain.cpp", "parameter/ConfigurableDomains.cpp", "parameter/ConfigurableElement.cpp", "parameter/DomainConfiguration.cpp"],
 [("add/remove/merge/split helpers", "CConfigurableDomain"), ("back references", "CConfigurableElement::addAttachedConfigurableDomain")],
 ["listDomainElements, listBelongingDomains, getConfigurationParameter, remote command status"])
prop("C16", "Nothing is tuned outside tuning mode and nothing is applied inside it",
 "While tuning mode is off, the operations reserved to tuning (writing a parameter by path, bytes or XML, creating, deleting or importing domains and configurations, adding, removing or splitting elements, saving and restoring configurations, setting element sequences and sequence awareness) fail with an error and have no effect. (Editing a value held by a configuration, a rule or a name is not reserved.) While it is on, applying configurations changes nothing, and leaving tuning mode force-applies the applicable configurations; entering it is refused when tuning is prohibited.",
 ["histories", "inputs"], "every operation with any arguments in every mode and history",
 "Tests check the gate of some commands in one state; every gated operation needs it for all arguments.",
 ["parameter/ParameterMgr.cpp"],
 [("tuning mode check at the head of each operation", "CParameterMgr::checkTuningModeOn"), ("mode switch", "CParameterMgr::setTuningMode")],
 ["result of each API call or remote command", "parameter values"])
prop("C17", "Settings reach the hardware: auto-sync, manual sync and error reporting",
 "When automatic synchronisation is on, every successful tuning write is followed by a synchronisation of the synchronisers of the element written, and a write which is refused synchronises nothing; when off, tuning writes synchronise nothing until it is requested, and turning it on again synchronises everything. (A typed write through a parameter handle, out of tuning mode, always synchronises.) Synchronising a set calls each of its synchronisers exactly once, goes on after a failing one, and reports failure if and only if at least one failed.",
 ["histories", "fault_sequences"], "every sequence of writes and mode switches, every set of synchronisers and every pattern of failing ones",
 "Tests have a single subsystem that never fails in most cases; the guarantee is over all failure patterns.",
 ["parameter/SyncerSet.cpp", "parameter/ParameterMgr.cpp", "parameter/BaseParameter.cpp", "parameter/ConfigurableElement.cpp", "parameter/ElementHandle.cpp"],
 [("set traversal accumulating errors", "CSyncerSet::sync"), ("auto-sync flag", "CParameterAccessContext")],
 ["calls on the subsystem's synchroniser"])
prop("C18", "The element tree: unambiguous names and faithful path resolution",
 "A path resolves to an element exactly when each of its items is the name of a child of the element resolved so far, starting from the root (a path without items, where one is accepted, is the root); resolving never returns an element whose own path differs. Renaming a domain or configuration, or creating one, under a name already used by a sibling is refused without effect, adding and removing a child keeps order and the child's parent link right, and an element is a descendant of exactly the elements on its parent chain.",
 ["inputs", "histories"], "every tree and every path",
 "Tests resolve paths in small fixed trees; correctness is over all trees, names and depths.",
 ["parameter/Element.cpp", "parameter/PathNavigator.cpp", "parameter/ElementLocator.cpp", "parameter/ConfigurableElement.cpp"],
 [("recursive descent", "CElement::findDescendant"), ("sibling name check", "CElement::rename")],
 ["getParameter by path, createElementHandle, renameDomain, renameConfiguration"])
prop("C19", "Parameters never overlap in the settings memory",
 "In any loaded structure, each element occupies a contiguous range of the settings memory as long as the sum of its children's sizes (a bit block's children share its own bytes), siblings follow each other without gap or overlap, and the memory is exactly as large as the whole structure.",
 ["configurations"], "every structure tree, including arrays, blocks of bits and strings",
 "Tests load a few structures; non-overlap is a structural induction over all trees.",
 ["parameter/ConfigurableElement.cpp", "parameter/InstanceConfigurableElement.cpp", "parameter/BitParameterBlock.cpp", "parameter/ArrayParameter.cpp", "parameter/BaseParameter.cpp", "parameter/ParameterMgr.cpp"],
 [("offset propagation", "CConfigurableElement::setOffset"), ("footprint sum", "CConfigurableElement::getFootPrint")],
 ["getElementSize, showMapping, absence of crosstalk between parameters"])
prop("C20", "Client accesses to current settings hold the settings lock",
 "Applying configurations, switching tuning mode, tuning reads and writes of a parameter, and every element or parameter handle read or write access the current settings only while holding the settings lock, which they acquire exactly once and release on every way out.",
 ["schedules"], "every interleaving of client threads calling these operations and every outcome of each call, errors included",
 "The tests are single threaded; a missing lock shows only under a race.",
 ["parameter/ParameterMgr.cpp", "parameter/ElementHandle.cpp"],
 [("scoped lock at the head of each operation", "CParameterMgr, ElementHandle")],
 ["settings memory accesses versus the lock state"])
prop("C21", "Element handles give typed access only where it is legal",
 "A handle writes an element, by typed value, bytes or XML, only if no domain holds it, an element above it or one below it; on an element under control of a domain the write fails with an error and changes nothing, while reads always remain possible. Scalar accesses succeed only on scalar parameters and array accesses only on array parameters, an array write giving exactly the array's number of items; any mismatch fails with an error and has no effect.",
 ["inputs", "configurations"], "every element kind, array length, requested type and argument length",
 "Tests use a few parameters; every accessor on every element kind has to respect the rule.",
 ["parameter/ElementHandle.cpp", "parameter/BaseParameter.cpp", "parameter/ArrayParameter.cpp"],
 [("validity checks before access", "ElementHandle::checkGetValidity/checkSetValidity")],
 ["ElementHandle/ParameterHandle return values and settings"])
prop("C22", "Array parameters: each item is stored at its own place, none outside",
 "Reading item i of an array parameter gives exactly the i-th item; writing a list of k values to item i (or to the whole array, from item 0) stores them in items i to i+k-1 and changes no other item. An index at or beyond the array length, or which is not a number, is refused without effect; a list which would run over the end of the array is refused without effect; a list with an illegal value is refused (items before the illegal one may be written, none after, and nothing is synchronised). A string parameter never stores more than its maximum length; a longer string, or one with a null character, is refused without effect, and an accepted one reads back unchanged. Neither ever changes anything else in the settings, be they the current ones or those of a configuration.",
 ["inputs"], "every array length, element size, index, list of values and string",
 "Tests index small arrays; the frame holds over all lengths and indexes.",
 ["parameter/ArrayParameter.cpp", "parameter/StringParameter.cpp", "parameter/StringParameterType.cpp", "parameter/ParameterBlackboard.cpp"],
 [("index validation and offset computation", "CArrayParameter"), ("length check", "CStringParameterType::toBlackboard/CStringParameter")],
 ["getParameter/setParameter with an index", "handle array accessors"])
prop("C23", "Remote protocol: what is sent is what is received, corruption is refused",
 "A request or answer sent over a connection arrives with the same type, command, arguments (blanks around them trimmed) or answer text, in order. A message whose framing is wrong (synchronisation word, announced size, checksum, or inner string lengths inconsistent with the amount of data) is refused as an error: it is never executed and never makes the receiver read outside the message or end.",
 ["inputs", "fault_sequences"], "every command, argument list and answer, every corruption of a frame",
 "Only manual remote sessions exercise it; no unit test feeds it corrupted frames.",
 ["remote-processor/Message.cpp", "remote-processor/RequestMessage.cpp", "remote-processor/AnswerMessage.cpp"],
 [("length-prefixed strings, bounds checks and checksum", "CMessage")],
 ["requests seen by the command handler, answers seen by the client"])
prop("C24", "Text is split and converted exactly, or refused",
 "Splitting a text on delimiters yields exactly its maximal delimiter-free pieces in order (keeping empty ones only when delimiters are not merged). Converting a text to a number succeeds only if the whole text denotes one number, in decimal or 0x-hexadecimal, which is representable in the requested type, and gives that number; otherwise it fails.",
 ["inputs"], "every text and delimiter set, every target type",
 "Unit tests feed a few dozen strings; the guarantee is over all strings.",
 ["utility/Tokenizer.cpp", "utility/convert.hpp", "parameter/PathNavigator.cpp"],
 [("single pass state machine", "Tokenizer::split"), ("extraction plus leftover and sign checks", "utility/convert.hpp")],
 ["Tokenizer::split, convertTo"])
prop("C25", "The C interface reports success exactly on success and keeps its state machine",
 "Every call of the C interface that fails returns failure and leaves a non-stale error message, and every call that succeeds returns success and clears the error; calls which need a started instance fail before it is started, and starting twice fails. Criteria are created with the values listed (index, or one bit per value when inclusive), with a null name, a null value list, a duplicate name, a duplicate value or too many values refused.",
 ["histories", "inputs"], "every sequence of C calls and every criterion table",
 "Tests cover the nominal sequence and a few errors.",
 ["bindings/c/ParameterFramework.cpp"],
 [("status object", "Status in bindings/c/ParameterFramework.cpp"), ("criteria creation", "PfwHandler::createCriteria")],
 ["return values, pfwGetLastError, criterion values"])
prop("C26", "Mapping: each key is set once along a branch and is found with its value",
 "Mapping data are parsed into key/value pairs exactly as written, a repeated key being refused; along one branch of the structure a mapping key can be set only once, a second setting being refused without effect, and looking an item up, by index or by key name, gives the value that was set for it or nothing. An amendment %n in a mapping value is replaced by the value of the n-th amendable key, and is left as it is when that key is not set.",
 ["inputs", "configurations"], "every mapping string, every context and key",
 "Tests load a few mappings; the lookups are over all contexts.",
 ["parameter/MappingData.cpp", "parameter/MappingContext.cpp", "parameter/FormattedSubsystemObject.cpp"],
 [("set-once items", "CMappingContext::setItem"), ("amendment substitution", "CFormattedSubsystemObject::formatMappingValue")],
 ["subsystem object construction, showMapping"])
prop("C27", "A subsystem that lost its state is resynchronised, exactly once per request",
 "When a subsystem signals the need for a resynchronisation, the next configuration application synchronises all the synchronisers of that subsystem and consumes the request; subsystems which did not ask are not resynchronised, and signals pending at start are discarded. At start, parameters which have a synchroniser and are not under an applicable configuration get the values read back from the hardware, or their default values where reading back fails, before any application.",
 ["histories", "configurations"], "every set of subsystems and every pattern and timing of resynchronisation requests",
 "Functional tests use a single subsystem and one request.",
 ["parameter/SystemClass.cpp", "parameter/Subsystem.cpp", "parameter/ParameterMgr.cpp", "parameter/ConfigurableElementAggregator.cpp", "parameter/SimulatedBackSynchronizer.cpp", "parameter/HardwareBackSynchronizer.cpp"],
 [("poll and consume", "CSystemClass::checkForSubsystemsToResync"), ("aggregation of rogue elements", "CConfigurableElementAggregator")],
 ["synchroniser calls per application"])
prop("C28", "Exported settings can be imported back to the same domains and settings",
 "Exporting the domains, or a single one, with settings, to a file or a string, and importing the result into the same structure reproduces the same domains, configurations, rules, element sequences and settings, whichever value space is used (for texts which XML can represent); configurations imported without settings take the current values of the parameters and are valid. An import which fails reports an error and leaves no partly imported domain behind. The import of a single domain never replaces an existing domain unless overwriting was requested.",
 ["inputs", "configurations"], "every set of domains and every settings content",
 "Tests export and import a few fixed documents.",
 ["parameter/ConfigurableDomain.cpp", "parameter/ConfigurableDomains.cpp", "parameter/DomainConfiguration.cpp", "parameter/ConfigurableElement.cpp", "parameter/ParameterMgr.cpp", "parameter/Element.cpp", "parameter/FixedPointParameterType.cpp", "parameter/CompoundRule.cpp", "parameter/SelectionCriterionRule.cpp"],
 [("symmetric composing and parsing of XML", "CConfigurableDomain::childrenToXml/fromXml"), ("settings in both directions", "CDomainConfiguration::{export,import}OneConfigurableElementSettings"), ("import entry points", "CParameterMgr::{importDomainsXml,importSingleDomainXml,wrapLegacyXmlImport}")],
 ["exportDomainsWithSettingsXML / importDomainsWithSettingsXML"])
prop("C29", "Remote commands: dispatched by exact name, with enough arguments, truthfully",
 "A remote command is executed exactly when its name is a registered one and at least its minimum number of arguments is supplied; otherwise nothing is executed and a failure with an explanation (the usage, when arguments are missing) is answered. A command executed carries out the operation it is named after, with the arguments received, in their order, and never reads an argument which was not received. The answer is a success exactly when that operation succeeded: Done for an action, the result for a query, the usage text for wrong arguments, and the operation's error otherwise.",
 ["inputs", "histories"], "every command name, argument list and outcome",
 "Tests drive a few commands with proper arguments.",
 ["remote-processor/RemoteCommandHandlerTemplate.h", "parameter/CommandHandlerWrapper.cpp", "parameter/ParameterMgr.cpp"],
 [("lookup, arity check, status mapping", "TRemoteCommandHandlerTemplate"), ("handlers", "CParameterMgr::*CommandProcess"), ("command table", "CParameterMgr::gastRemoteCommandParserItems")],
 ["answer status and text of remote commands"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
