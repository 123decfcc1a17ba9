"""COSEM interface classes as the Blue Book lists them: for each class and version the attributes from number 2 on
(name, encodings of admissible values) and the methods (name, encodings).  Written by hand, independent of the code."""
import struct


def u8(n): return bytes([17, n])
def i8(n): return struct.pack(">Bb", 15, n)
def u16(n): return struct.pack(">BH", 18, n)
def i16(n): return struct.pack(">Bh", 16, n)
def u32(n): return struct.pack(">BL", 6, n)
def i32(n): return struct.pack(">Bl", 5, n)
def u64(n): return struct.pack(">BQ", 21, n)
def en(n): return bytes([22, n])
def bo(n): return bytes([3, n])
def os(b): return bytes([9, len(b)]) + bytes(b)
def vs(b): return bytes([10, len(b)]) + bytes(b)
def bits(s): return bytes([4, len(s)]) + int(s.ljust((len(s) + 7) // 8 * 8, "0") or "0", 2).to_bytes((len(s) + 7) // 8, "big")
def st(*x): return bytes([2, len(x)]) + b"".join(x)
def ar(*x): return bytes([1, len(x)]) + b"".join(x)
def ln(s): return os(bytes(map(int, s.split("."))))


DT = bytes.fromhex("07e40101030000000080000000"[:24])        # Wed 2020-01-01 00:00:00.00, no deviation, status 0
DT2 = bytes.fromhex("07e4021d060b1e2d00003c00")             # Sat 2020-02-29 11:30:45.00 +60 min
dt12, dt12b = os(DT), os(DT2)
dt25, dt25b = b"\x19" + DT, b"\x19" + DT2
d5, d5b = os(DT[:5]), os(b"\xff\xff\x0c\x19\xff")
t4, t4b = os(b"\x06\x00\x00\x00"), os(b"\x17\x3b\xff\xff")
SU = st(i8(-3), en(30))
SU2 = st(i8(0), en(27))
O0 = [i8(0)]
VALDEF = [st(u16(3), ln("1.0.1.8.0.255"), i8(2)), st(u16(1), ln("0.0.96.1.0.255"), i8(2))]
ACT = [st(ln("0.0.10.0.100.255"), u16(1)), st(ln("0.0.10.0.101.255"), u16(513))]
CAP = [st(u16(8), ln("0.0.1.0.0.255"), i8(2), u16(0)), st(u16(3), ln("1.0.1.8.0.255"), i8(2), u16(0))]
SIMPLE = [b"\x00", bo(1), bits("10110"), i32(-7), u32(7), os(b"ab"), vs(b"ab"), b"\x0c\x02ab", bytes([13, 0x12]), i8(-7), i16(-7), u8(7), u16(7), b"\x14" + struct.pack(">q", -7),
          u64(7), en(7), b"\x17\x3f\x80\x00\x00", b"\x18\x3f\xf0\0\0\0\0\0\0", dt25, b"\x1a" + DT[:5], b"\x1b\x06\x00\x00\x00"]
_tag = lambda *t: [e for e in SIMPLE if e[0] in t]
REGISTER = _tag(0, 4, 6, 9, 10, 12, 17, 18, 21, 5, 15, 16, 20, 22, 23, 24)
EXTREG = _tag(0, 4, 6, 9, 10, 12, 17, 18, 21)
DATA = SIMPLE + [ar(u8(1), u8(2)), st(u8(1), os(b"x"))]
SEASON = [ar(), ar(st(os(b"a"), dt12, os(b"w"))), ar(st(os(b"a"), dt12, os(b"w")), st(os(b"b"), dt12b, os(b"v")))]
WEEK = [ar(), ar(st(os(b"w"), *[u8(i) for i in range(1, 8)]))]
DAY = [ar(), ar(st(u8(1), ar(st(t4, ln("0.0.10.0.100.255"), u16(1)))), st(u8(2), ar()))]
SPEC = [ar(), ar(st(u16(1), d5, u8(1)), st(u16(9), d5b, u8(2)))]
SPEED = [en(5), en(0), en(9)]
IP = [u32(0xC0A80001), u32(0), u32(0xFFFFFFFF)]
OBJ = lambda m: st(u16(8), u8(0), ln("0.0.1.0.0.255"), st(ar(st(i8(1), en(1), b"\0"), st(i8(2), en(3), ar(i8(1)))), ar(st(i8(1), m))))
CTX = [st(u8(2), u8(16), u16(756), u8(5), u8(8), u8(1), u8(n)) for n in (1, 3)]
CTXA = [os(bytes.fromhex("6085740508010") + b"") if False else os(bytes.fromhex("60857405080101")), os(bytes.fromhex("60857405080103"))]
MECH = [st(u8(2), u8(16), u16(756), u8(5), u8(8), u8(2), u8(n)) for n in (0, 1, 2)]
MECHA = [os(bytes.fromhex("608574050802") + bytes([n])) for n in (0, 1, 2)]
XDLMS = [st(b"\x04\x18\x00\x1e\x1d", u16(1024), u16(512), u8(6), i8(0), os(b"")), st(b"\x04\x18\x00\x00\x00", u16(0xffff), u16(0), u8(6), i8(-1), os(b"\x09\x07"))]


def association(v):
    m = bo(1) if v == 0 else en(2)
    a = [("object_list", [ar(), ar(OBJ(m))]),
         ("associated_partners_id", [st(i8(16), u16(1)), st(i8(0x30), u16(0x3fff))]),
         ("application_context_name", CTX if v == 0 else CTXA),
         ("xDLMS_context_info", XDLMS),
         ("authentication_mechanism_name", MECH if v == 0 else MECHA),
         ("LLS_secret", [os(b"12345678"), os(b"1234567890123456")]),
         ("association_status", [en(0), en(1), en(2)])]
    if v:
        a.append(("security_setup_reference", [ln("0.0.43.0.0.255"), ln("0.0.43.0.1.255")]))
    return a, [("reply_to_HLS_authentication", [os(b"1234567890")]), ("change_HLS_secret", [os(b"12345678")]), ("add_object", [OBJ(m)]), ("remove_object", [OBJ(m)])]


def gsm(v):
    c = [st(u16(1), u16(2), u8(31), u8(7)), st(u16(0xffff), u16(0), u8(99), u8(0))] if v == 0 else [st(u32(1), u16(2), u8(31), u8(7), u16(250), u16(1), u32(9)), st(u32(0xffffffff), u16(0), u8(99), u8(0), u16(0), u16(0), u32(0))]
    e = (lambda n: u16(n)) if v == 0 else (lambda n: u32(n))
    return [("operator", [vs(b"op"), vs(b"")]), ("status", [en(i) for i in range(6)]), ("cs_attachment", [en(i) for i in range(3)]), ("ps_status", [en(i) for i in range(5 if v == 0 else 7)]),
            ("cell_info", c), ("adjacent_cell", [ar(), ar(st(e(1), u8(2)), st(e(3), u8(99)))]), ("capture_time", [dt25, dt25b])], []


CERT = st(en(0), en(1), os(b"1"), os(b"i"), os(b"s"), os(b""))
PGEN = [("buffer", None), ("capture_objects", None), ("capture_period", [u32(0), u32(3600)]), ("sort_method", [en(i) for i in range(1, 7)]), ("sort_object", None),
        ("entries_in_use", [u32(0), u32(5)]), ("profile_entries", [u32(1), u32(100)])]

#: (class, version) -> (logical name, attributes, methods); None as samples: only in units of its own
CLASSES = {
    (1, 0): ("0.0.96.50.9.255", [("value", DATA)], []),
    (3, 0): ("1.0.1.8.0.255", [("value", REGISTER), ("scaler_unit", [SU, SU2])], [("reset", O0)]),
    (4, 0): ("1.0.1.6.0.255", [("value", REGISTER), ("scaler_unit", [SU, SU2]), ("status", EXTREG), ("capture_time", [dt12, dt12b])], [("reset", O0)]),
    (5, 0): ("1.0.1.4.0.255", [("current_average_value", REGISTER), ("last_average_value", REGISTER), ("scaler_unit", [SU, SU2]), ("status", EXTREG), ("capture_time", [dt12, dt12b]),
                              ("start_time_current", [dt12, dt12b]), ("period", [u32(1), u32(900)]), ("number_of_periods", [u16(1), u16(4)])], [("reset", O0), ("next_period", O0)]),
    (6, 0): ("0.0.14.0.0.255", [("register_assignment", [ar(), ar(st(u16(3), ln("1.0.1.8.0.255")))]), ("mask_list", [ar(), ar(st(os(b"m"), ar(u8(1), u8(2))))]), ("active_mask", [os(b"m"), os(b"")])],
             [("add_register", [st(u16(3), ln("1.0.1.8.0.255"))]), ("add_mask", [st(os(b"m"), ar(u8(1)))]), ("delete_mask", [os(b"m")])]),
    (7, 1): ("1.0.99.1.0.255", PGEN, [("reset", O0), ("capture", O0)]),
    (8, 0): ("0.0.1.0.0.255", [("time", [dt12, dt12b]), ("time_zone", [i16(-720), i16(180)]), ("status", [u8(0), u8(0x8f)]), ("daylight_savings_begin", [dt12, dt12b]), ("daylight_savings_end", [dt12b, dt12]),
                              ("daylight_savings_deviation", [i8(60), i8(-120)]), ("daylight_savings_enabled", [bo(0), bo(1)]), ("clock_base", [en(i) for i in range(6)])],
             [("adjust_to_quarter", O0), ("adjust_to_measuring_period", O0), ("adjust_to_minute", O0), ("adjust_to_preset_time", O0), ("preset_adjusting_time", []), ("shift_time", [i16(-900), i16(900)])]),
    (9, 0): ("0.0.10.0.100.255", [("scripts", [ar(), ar(st(u16(1), ar(st(en(1), u16(70), ln("0.0.96.3.10.255"), i8(4), en(0)), st(en(2), u16(70), ln("0.0.96.3.10.255"), i8(1), i8(0)))), st(u16(2), ar()))])],
             [("execute", [u16(1)])]),
    (10, 0): ("0.0.12.0.0.255", [("entries", [ar(), ar(st(u16(1), bo(1), ln("0.0.10.0.100.255"), u16(1), t4, u16(0xffff), bits("1111100"), bits("10"), d5, d5b))])],
              [("enable_disable", [st(u16(1), u16(2), u16(3), u16(9999))]), ("insert", [st(u16(1), bo(1), ln("0.0.10.0.100.255"), u16(1), t4, u16(0xffff), bits("1111100"), bits("10"), d5, d5b)]), ("delete", [st(u16(1), u16(2))])]),
    (11, 0): ("0.0.11.0.0.255", [("entries", SPEC)], [("insert", [st(u16(1), d5, u8(1))]), ("delete", [])]),
    (15, 0): ("0.0.40.0.2.255", *association(0)),
    (15, 1): ("0.0.40.0.2.255", *association(1)),
    (18, 0): ("0.0.44.0.0.255", [("image_block_size", [u32(1), u32(1024)]), ("image_transferred_blocks_status", [bits(""), bits("1011")]), ("image_first_not_transferred_block_number", [u32(0), u32(5)]),
                                ("image_transfer_enabled", [bo(0), bo(1)]), ("image_transfer_status", [en(i) for i in range(8)]), ("image_to_activate_info", [ar(), ar(st(u32(7), os(b"id"), os(b"sig")))])],
              [("image_transfer_initiate", [st(os(b"id"), u32(7))]), ("image_block_transfer", [st(u32(0), os(b"abc"))]), ("image_verify", O0), ("image_activate", O0)]),
    (20, 0): ("0.0.13.0.0.255", [("calendar_name_active", [os(b"A"), os(b"")]), ("season_profile_active", SEASON), ("week_profile_table_active", WEEK), ("day_profile_table_active", DAY),
                                ("calendar_name_passive", [os(b"P"), os(b"")]), ("season_profile_passive", SEASON), ("week_profile_table_passive", WEEK), ("day_profile_table_passive", DAY),
                                ("activate_passive_calendar_time", [dt12, dt12b])], [("activate_passive_calendar", O0)]),
    (21, 0): ("0.0.16.0.0.255", [("thresholds", None), ("monitored_value", None), ("actions", [ar(), ar(st(ACT[0], ACT[1]))])], []),
    (22, 0): ("0.0.15.0.0.255", [("executed_script", ACT), ("type", [en(i) for i in range(1, 6)]), ("execution_time", [ar(), ar(st(t4, d5), st(t4b, d5b))])], []),
    (23, 1): ("0.0.22.0.0.255", [("comm_speed", SPEED), ("windows_size_transmit", [u8(1), u8(7)]), ("windows_size_receive", [u8(1), u8(7)]), ("max_info_field_length_transmit", [u16(128), u16(2030)]),
                                ("max_info_field_length_receive", [u16(128), u16(2030)]), ("inter_octet_time_out", [u16(25), u16(6000)]), ("inactivity_time_out", [u16(120), u16(0)]), ("device_address", [u16(16), u16(0x3ffd)])], []),
    (27, 0): ("0.0.2.0.0.255", [("comm_speed", SPEED), ("initialization_string", [ar(), ar(st(os(b"AT"), os(b"OK")))]), ("modem_profile", [ar(), ar(os(b"OK"), os(b"BUSY"))])], []),
    (27, 1): ("0.0.2.0.0.255", [("comm_speed", SPEED), ("initialization_string", [ar(), ar(st(os(b"AT"), os(b"OK"), u16(50)))]), ("modem_profile", [ar(), ar(os(b"OK"), os(b"BUSY"))])], []),
    (40, 2): ("0.0.25.9.0.255", [("push_object_list", [ar(), ar(st(u16(8), ln("0.0.1.0.0.255"), i8(2), u16(0), st(en(0), b"\0"), ar(CAP[0])), st(u16(7), ln("1.0.99.1.0.255"), i8(2), u16(0), st(en(2), st(u32(1), u32(2))), ar()),
                                                              st(u16(7), ln("1.0.99.1.0.255"), i8(2), u16(0), st(en(1), st(d5, d5b)), ar()))]),
                                ("send_destination_and_method", [st(en(0), os(b"h:1"), en(0)), st(en(200), os(b""), en(128))]), ("communication_window", [ar(), ar(st(dt12, dt12b))]), ("randomisation_start_interval", [u16(0), u16(60)]),
                                ("number_of_retries", [u8(0), u8(3)]), ("repetition_delay", [st(u16(1), u16(100), u16(60)), st(u16(0), u16(0), u16(0))]), ("port_reference", [ln("0.0.25.0.0.255"), ln("0.0.25.1.0.255")]),
                                ("push_client_sap", [i8(16), i8(-1)]), ("push_protection_parameters", [ar()]), ("push_operation_method", [en(i) for i in range(3)]),
                                ("confirmation_parameters", [st(dt25, u32(0)), st(dt25b, u32(60))]), ("last_confirmation_date_time", [dt25, dt25b])], [("push", O0), ("reset", O0)]),
    (41, 0): ("0.0.25.0.0.255", [("TCP_UDP_port", [u16(4059), u16(1)]), ("IP_reference", [ln("0.0.25.1.0.255"), ln("0.1.25.1.0.255")]), ("MMS", [u16(535), u16(40)]), ("nb_of_sim_conn", [u8(1), u8(5)]), ("inactivity_time_out", [u16(180), u16(0)])], []),
    (42, 0): ("0.0.25.1.0.255", [("DL_reference", [os(bytes((0, 0, 25, 2, 0, 255))), os(b"")]), ("IP_address", IP), ("multicast_IP_address", [ar(), ar(*IP[:2])]), ("IP_options", [ar(), ar(st(u8(1), u8(2), os(b"x")))]), ("subnet_mask", IP),
                                ("gateway_IP_address", IP), ("use_DHCP_flag", [bo(0), bo(1)]), ("primary_DNS_address", IP), ("secondary_DNS_address", IP)], []),
    (45, 0): ("0.0.25.4.0.255", [("APN", [os(b"apn"), os(b"")]), ("PIN_code", [u16(1234), u16(0)]), ("quality_of_service", [st(st(u8(1), u8(2), u8(3), u8(4), u8(5)), st(*[u8(0)] * 5)), st(st(*[u8(0)] * 5), st(*[u8(9)] * 5))])], []),
    (47, 0): ("0.0.25.6.0.255", *gsm(0)),
    (47, 1): ("0.0.25.6.0.255", *gsm(1)),
    (64, 0): ("0.0.43.0.0.255", [("security_policy", [en(i) for i in range(4)]), ("security_suite", [en(0)]), ("client_system_title", [os(b"12345678"), os(b"")]), ("server_system_title", [os(b"abcdefgh"), os(b"")])],
              [("security_activate", [en(1)]), ("global_key_transfer", [ar(st(en(0), os(b"k" * 24)))])]),
    (64, 1): ("0.0.43.0.0.255", [("security_policy", [en(0), en(4)]), ("security_suite", [en(0), en(1), en(2)]), ("client_system_title", [os(b"12345678"), os(b"")]), ("server_system_title", [os(b"abcdefgh"), os(b"")]),
                                ("certificates", [ar(), ar(CERT)])],
              [("security_activate", [en(4)]), ("key_transfer", [ar(st(en(0), os(b"k" * 24)))]), ("key_agreement", [ar(st(en(0), os(b"k")))]), ("generate_key_pair", [en(0), en(1), en(2)]), ("generate_certificate_request", [en(0), en(1), en(2)]),
               ("import_certificate", [os(b"c")]), ("export_certificate", [st(en(0), st(en(0), en(1), os(b"t"))), st(en(1), st(os(b"s"), os(b"i")))]), ("remove_certificate", [st(en(0), st(en(0), en(1), os(b"t")))])]),
    (68, 0): ("0.0.96.3.20.255", [("actions", [ar(), ar(*ACT)]), ("permission_table", [ar(), ar(bits("10"), bits("01"))]), ("weightings_table", [ar(), ar(ar(u16(1), u16(2)), ar(u16(3)))]),
                                 ("most_recent_requests_table", [ar(), ar(bits("10"), bits("1"))]), ("last_outcome", [u8(0), u8(2)])], [("request_action", [st(u8(1), bits("10"))]), ("reset", O0)]),
    (70, 0): ("0.0.96.3.10.255", [("output_state", [bo(0), bo(1)]), ("control_state", [en(i) for i in range(3)]), ("control_mode", [en(i) for i in range(7)])], [("remote_disconnect", O0), ("remote_reconnect", O0)]),
    (71, 0): ("0.0.17.0.0.255", [("monitored_value", None), ("threshold_active", None), ("threshold_normal", None), ("threshold_emergency", None), ("min_over_threshold_duration", [u32(0), u32(60)]), ("min_under_threshold_duration", [u32(0), u32(60)]),
                                ("emergency_profile", [st(u16(1), dt12, u32(60)), st(u16(0), dt12b, u32(0))]), ("emergency_profile_group_id_list", [ar(), ar(u16(1), u16(2))]), ("emergency_profile_active", [bo(0), bo(1)]), ("actions", [st(*ACT), st(*ACT[::-1])])], []),
    (100, 0): ("0.0.25.10.0.255", [("activated", [bo(0), bo(1)]), ("server_address", [os(b"pool"), os(b"")]), ("server_port", [u16(123), u16(1)]), ("authentication_method", [en(i) for i in range(3)]), ("authentication_keys", [ar(), ar(st(u32(1), os(b"k")))]),
                                  ("client_key", [os(b"k"), os(b"")])], [("synchronize", O0), ("add_authentication_key", [st(u32(1), os(b"k"))]), ("delete_authentication_key", [u32(1)])]),
}
#: accessors whose name differs from that of the attribute
ALIAS = {(68, 3): "permissions_table", (68, 5): "most_recent_request_table", (40, 9): "push_client_SAP", (22, 3): "type_", (21, 4): None, (27, 2): None, (27, 4): None}

#: attributes the meter itself updates (not copied with an object)
DYNAMIC = {(4, 0): (4, 5), (5, 0): (2, 3, 5, 6, 7), (7, 1): (2, 7), (8, 0): (2, 4), (15, 0): (8,), (15, 1): (8,), (18, 0): (3, 4, 6, 7), (40, 2): (13,), (47, 0): range(2, 9), (47, 1): range(2, 9),
           (64, 0): (4,), (64, 1): (4, 6), (68, 0): (5, 6), (70, 0): (2, 3), (71, 0): (3, 10)}
#: attributes whose value or type other attributes or objects decide; units of their own
TIED = {(15, 0): (7,), (15, 1): (7,)}
