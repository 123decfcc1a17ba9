"""P43: attributes, methods and elements of structures are reached by their names, at the place the standard gives them."""
import itertools
import env
import ref26 as r
from explorer import unit, outcome, rejects

col = env.mod("cosem_interface_classes.collection")
ic = env.mod("cosem_interface_classes.cosem_interface_class")
cdt, ut, cst = (env.mod(f"types.{n}") for n in ("common_data_types", "useful_types", "cosem_service_types"))
ASSUMPTIONS = ["names as the package spells them; four names it spells otherwise than its descriptions are listed in the check"]
ALIAS = {(68, 0): {"permissions_table": 3, "most_recent_request_table": 5}, (40, 2): {"push_client_SAP": "push_client_sap"}, (22, 0): {"type_": 3}, (41, 0): {}}


def subs(c):
    seen = set()
    todo = [c]
    while todo:
        for s in todo.pop().__subclasses__():
            if s not in seen:
                seen.add(s)
                todo.append(s)
                yield s


def classes():
    """every interface class and implementation, in an order that does not depend on the run"""
    return sorted((c for c in subs(ic.COSEMInterfaceClasses) if hasattr(c, "A_ELEMENTS") and hasattr(c, "CLASS_ID") and hasattr(c, "VERSION")), key=lambda c: (c.__module__, c.__qualname__))


def key(c):
    return int(c.CLASS_ID), int(c.VERSION)


@unit("objects", shards=4)
def objects(ctx):
    ctx.bound("every attribute and method of every class version and implementation of it, before and after every attribute is set to each sample value (types of other attributes may depend on it)")
    cs = classes()
    ctx.bound(f"{len(cs)} classes and implementations")

    def agree(x, o, k):
        c = type(x)
        ref = r.CLASSES.get(k)
        at = {n: i for i, (n, _) in enumerate(ref[1], 2)} if ref else {}
        for i, e in enumerate(c.A_ELEMENTS, 2):
            o.ok(not ref or at.get(e.NAME, i) == i, f"attribute {e.NAME} is at {i}, the standard has it at {at.get(e.NAME)}", "index")
            o.ok(x.get_attr_element(i).NAME == e.NAME, f"element {i}", "element")
            p = getattr(c, e.NAME, None)
            if isinstance(p, property):
                o.ok(getattr(x, e.NAME) is x.get_attr(i), f"{c.__name__}.{e.NAME} is not attribute {i}", "attribute")
        names = {e.NAME for e in c.A_ELEMENTS}
        for i, e in enumerate(c.M_ELEMENTS or (), 1):
            o.eq(x.get_meth_element(i).NAME, e.NAME, f"method element {i}", "element")
            p = getattr(c, e.NAME, None)
            if isinstance(p, property) and e.NAME not in names:
                o.ok(getattr(x, e.NAME) is x.get_meth(i), f"{c.__name__}.{e.NAME} is not method {i}", "method")
        for n, i in ALIAS.get(k, {}).items():
            if isinstance(i, str):
                i = next(j for j, e in enumerate(c.A_ELEMENTS, 2) if e.NAME.lower() == i)
            if isinstance(getattr(c, n, None), property):
                o.ok(getattr(x, n) is x.get_attr(i), f"{c.__name__}.{n} is not attribute {i}", "attribute")
        o.eq([(i, id(v)) for i, v in x.get_index_with_attributes()] if not overrides(c) else sorted((i, id(v)) for i, v in x.get_index_with_attributes()),
             [(i, id(x.get_attr(i))) for i in range(1, len(c.A_ELEMENTS) + 2)], "attributes with their indexes", "listing")
        o.eq([(i, id(v)) for i, v in x.it_index_with_meth], [(i, id(x.get_meth(i))) for i in range(1, len(c.M_ELEMENTS or ()) + 1)], "methods with their indexes", "listing")
        o.eq(x.get_attr_length(), len(c.A_ELEMENTS) + 1, "number of attributes", "length")
        for bad in (-1, 0, len(c.A_ELEMENTS) + 2, 255):
            if bad > 0:
                rejects(o, lambda: x.get_attr_element(bad), (Exception,), f"attribute {bad}", "beyond")

    def overrides(c):
        return c.get_index_with_attributes is not ic.COSEMInterfaceClasses.get_index_with_attributes

    def body(case, o):
        n, i, s = case
        c = cs[n]
        k = key(c)
        ln = r.CLASSES[k][0] if k in r.CLASSES else "0.0.96.50.9.255"
        co = col.Collection()
        if i is None or c not in ic_standard():
            x = c(cst.LogicalName(ln))
        else:
            x = co.add(ut.CosemClassId(k[0]), cdt.Unsigned(k[1]), cst.LogicalName(ln))
            if type(x) is not c:
                x = c(cst.LogicalName(ln))
                x.collection = co
        agree(x, o, k)
        if i is not None:
            if outcome(x.set_attr, i, s)[0] == "ok":
                if isinstance(getattr(c, c.A_ELEMENTS[i - 2].NAME, None), property) and x.get_attr(i) is not None:
                    o.eq(getattr(x, c.A_ELEMENTS[i - 2].NAME).encoding, x.get_attr(i).encoding, "value by its name", "value")
                agree(x, o, k)
            x.clear_attr(i)
            agree(x, o, k)
        o.eq(x.string_type_cardinality, {8: "0...1", 11: "0...1"}.get(k[0], "0...n"), "how many objects of the class a device may have", "cardinality")

    cases = [(n, None, None) for n in range(len(cs))]
    for n, c in enumerate(cs):
        for i, (_, ss) in enumerate(r.CLASSES.get(key(c), (0, (), 0))[1], 2):
            cases += [(n, i, s) for s in ss or ()]
    ctx.all("objects", cases, body)


def ic_standard():
    """classes a collection makes itself"""
    global _std
    if not _std:
        _std = set(classes())
    return _std


_std = set()

# elements in the order of the standard, by the name of the structure; several versions where the standard has them
OID = ("joint_iso_ctt_element", "country_element", "country_name_element", "identified_organization_element", "DLMS_UA_element")
VD = ("class_id", "logical_name", "attribute_index")
E = {
    "DayProfile": [("day_id", "day_schedule")], "DayProfileAction": [("start_time", "script_logical_name", "script_selector")],
    "Season": [("season_profile_name", "season_start", "week_name")],
    "WeekProfile": [("week_profile_name", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday")],
    "RequestAction": [("request_actor", "request_action_list")],
    "AuthenticationMechanismName": [(*OID, "authentication_mechanism_name_element", "mechanism_id_element")], "MechanismNameType": [(*OID, "authentication_mechanism_name_element", "mechanism_id_element")],
    "ApplicationContextName": [(*OID, "application_context_element", "context_id_element")], "ContextNameType": [(*OID, "application_context_element", "context_id_element")],
    "AccessRight": [("attribute_access", "method_access")], "AssociatedPartnersType": [("client_SAP", "server_SAP")], "AttributeAccessItem": [("attribute_id", "access_mode", "access_selectors")],
    "MethodAccessItem": [("method_id", "access_mode")], "ObjectId": [("class_id", "logical_name")], "ObjectListElement": [("class_id", "version", "logical_name", "access_rights")],
    "XDLMSContextType": [("conformance", "max_receive_pdu_size", "max_send_pdu_size", "dlms_version_number", "quality_of_service", "cyphering_info")],
    "PresetAdjustingTime": [("preset_time", "validity_interval_start", "validity_interval_end")],
    "QoSElement": [("precedence", "delay", "reliability", "peak_throughput", "mean_throughput")], "QualityOfService": [("default", "requested")],
    "AdjacentCellInfo": [("cell_ID", "signal_quality")],
    "CellInfoType": [("cell_ID", "location_ID", "signal_quality", "ber"), ("cell_ID", "location_ID", "signal_quality", "ber", "mcc", "mnc", "channel_number")],
    "ImageBlockTransfer": [("image_block_number", "image_block_value")], "ImageTransferInitiate": [("image_identifier", "image_size")],
    "ImageToActivateInfoElement": [("image_to_activate_size", "image_to_activate_identification", "image_to_activate_signature")],
    "IPOptionsElement": [("IP_Option_Type", "IP_Option_Length", "IP_Option_Data")], "ActionType": [("action_over_threshold", "action_under_threshold")],
    "EmergencyProfileType": [("emergency_profile_id", "emergency_activation_time", "emergency_duration")], "ValueDefinitionType": [VD], "ValueDefinition": [VD],
    "InitializationStringElement": [("request", "response"), ("request", "response", "delay_after_response")], "AuthenticationKey": [("key_id", "key")],
    "EntryDescriptor": [("from_entry", "to_entry", "from_selected_value", "to_selected_value")],
    "ConfirmationParameters": [("confirmation_start_date", "confirmation_interval")], "KeyInfoElement": [("key_info_type", "key_info_options")],
    "ProtectionOptions": [("transaction_id", "originator_system_title", "recipient_system_title", "other_information", "key_info")],
    "ProtectionParametersElement": [("protection_type", "protection_options")], "PushObjectDefinition": [(*VD, "data_index", "restriction", "column"), (*VD, "data_index")],
    "RepetitionDelay": [("repetition_delay_min", "repetition_delay_exponent", "repetition_delay_max")], "RestrictionElement": [("restriction_type", "restriction_value")],
    "SendDestinationAndMethod": [("transport_service", "destination", "message")], "ObjectDefinition": [("class_id", "logical_name")], "RegisterActMask": [("mask_name", "index_list")],
    "ActionSet": [("action_up", "action_down")], "DataDelete": [("firstIndex", "lastIndex")], "DataED": [("firstIndexA", "lastIndexA", "firstIndexB", "lastIndexB")],
    "ScheduleTableEntry": [("index", "enable", "script_logical_name", "script_selector", "switch_time", "validity_window", "exec_weekdays", "exec_specdays", "begin_date", "end_date")],
    "ActionSpecification": [("service_id", "class_id", "logical_name", "index", "parameter")], "Script": [("script_identifier", "actions")],
    "KeyData": [("key_id", "key_wrapped")], "KeyTransferData": [("key_id", "key_wrapped")], "KeyAgreementData": [("key_id", "key_data")],
    "CertificateIdentification": [("certificate_identification_type", "certification_identification_options")],
    "CertificateIdentificationByEntity": [("certificate_entity", "certificate_type", "system_title")], "CertificateIdentificationBySerial": [("serial_number", "issuer")],
    "CertificateInfo": [("certificate_entity", "certificate_type", "serial_number", "issuer", "subject", "subject_alt_name")],
    "ExecutionTimeDate": [("time", "date")], "SpecDayEntry": [("index", "specialday_date", "day_id")],
    "AgreedKeyInfoOptions": [("kek_id", "key_ciphered_data")], "WrappedKeyInfoOptions": [("kek_id", "key_ciphered_data")], "ScalUnitType": [("scaler", "unit")],
    "ActionItem": [("script_logical_name", "script_selector")], "CaptureObjectDefinition": [(*VD, "data_index")], "RestrictionByDate": [("from_date", "to_date")],
    "RestrictionByEntry": [("from_entry", "to_entry")], "WindowElement": [("start_time", "end_time")],
}


OCTETS = ("AuthenticationMechanismName", "MechanismNameType", "ApplicationContextName", "ContextNameType")    # an octet string or a structure


@unit("structures")
def structures(ctx):
    """each element of a structure is reached by its name, alone and however the structure came to be"""
    ss = sorted(subs(cdt.Structure), key=lambda s: (s.__module__, s.__qualname__))
    ss = [s for s in ss if getattr(s, "ELEMENTS", None)]
    ctx.bound(f"all {len(ss)} structures, made from nothing, from octets, from elements and from another; every element replaced")

    def body(n, o):
        s = ss[n]
        names = tuple(e.NAME for e in s.ELEMENTS)
        if s.__name__ in E:
            o.ok(names in E[s.__name__], f"{s.__name__} has the elements {names}, the standard {E[s.__name__]}", "order")
        x = s()
        if any(not hasattr(e, "encoding") for e in x):      # a choice which has taken no value has no octets
            o.ok(all(getattr(x, nm) is x[i] for i, nm in enumerate(names)), f"{s.__name__}: names and places", "name")
            return
        k, y = outcome(s, x.encoding)
        ways = [("new", x)] + ([("octets", y)] if k == "ok" else [])
        k, y = outcome(s, x)
        ways += [("another", y)] if k == "ok" else []
        k, y = outcome(s, [e.encoding for e in x])
        ways += [("elements", y)] if k == "ok" else []
        for w, y in ways:
            o.eq(len(y), len(names), f"{w}: elements", "length")
            for i, nm in enumerate(names):
                o.ok(hasattr(y, nm), f"{w}: {s.__name__} has no {nm}", "missing")
                o.ok(getattr(y, nm) is y[i], f"{w}: {s.__name__}.{nm} is not element {i}", "name")
                o.eq([e.NAME for e in y.ELEMENTS][i], nm, "element", "element")
            if s.__name__ not in OCTETS:
                o.eq(y.encoding, b"\x02" + bytes([len(names)]) + b"".join(getattr(y, nm).encoding for nm in names), f"{w}: octets", "encoding")
        for w, y in ways[1:]:
            o.ok(not any(a is b for a, b in zip(x, y)), f"{w}: {s.__name__} shares elements with the one it was made from", "shared")
        # an element changed through its name changes the octets of this element only
        for i, nm in enumerate(names):
            y = s()
            e = getattr(y, nm)
            for v in (1, 2, b"\x09\x06\0\0\1\0\0\xff", "1", b"\x09\x0c\x07\xe4\x01\x01\xff\0\0\0\0\x80\0\xff", b"\x09\x05\x07\xe4\x02\x02\xff", b"\x09\x04\1\2\3\0"):
                if outcome(e.set, v)[0] == "ok":
                    break
            if len(getattr(e, "encoding", b"")) == 0:
                continue
            o.eq([y[j].encoding for j in range(len(names))], [e.encoding if j == i else x[j].encoding for j in range(len(names))], f"{s.__name__} with another {nm}", "changed")
    ctx.all("structures", range(len(ss)), body)
