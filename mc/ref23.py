"""Reference for P23: which classes an object with a given logical name may have (DLMS UA 1000-1 Ed. 14, tables 54..67,
with the additions of SPODES 3 and of one manufacturer).  Rows are (C, D, E, classes); D, E None: any value."""
R = range


def s(*parts):
    out = set()
    for p in parts:
        out |= {p} if isinstance(p, int) else set(p)
    return frozenset(out)


DATA, REG, EXT, DEM, PROF = "Data", "Register", "ExtendedRegister", "DemandRegister", "ProfileGeneric"
MEAS = (DATA, REG, EXT)
ABSTRACT = [
    (s(0), s(1, 2, 9), None, (DATA,)), (s(0), s(2), s(1), ("ActiveFirmwareId",)),
    (s(1), s(0), None, ("Clock",)), (s(1), s(R(1, 7)), None, (DATA,)),
    (s(2), s(0), s(0), ("ModemConfiguration",)),
    (s(10), s(0), s(0, 1, R(100, 112), 125), ("ScriptTable",)),
    (s(11), s(0), None, ("SpecialDaysTable",)), (s(12), s(0), None, ("Schedule",)), (s(13), s(0), None, ("ActivityCalendar",)), (s(14), s(0), None, ("RegisterActivation",)),
    (s(15), s(0), s(R(8)), ("SingleActionSchedule",)),
    (s(16), s(0), None, ("RegisterMonitor",)), (s(16), s(1), s(R(10)), ("RegisterMonitor",)),
    (s(17), s(0), None, ("Limiter",)),
    (s(19), s(R(50, 60)), s(1, 2), (DATA,)),
    (s(21), s(0), None, (DATA, PROF)),
    (s(22), s(0), s(0), ("IECHDLCSetup",)),
    (s(23), s(2), s(0), (DATA,)), (s(23), s(3), s(R(10)), (DATA, PROF)), (s(23), s(3), s(R(10, 256)), (DATA,)),
    (s(24), s(2), None, (EXT,)), (s(24), s(3), None, (PROF,)), (s(24), s(4), s(0), ("DisconnectControl",)), (s(24), s(5), s(0), (PROF,)),
    (s(25), s(0), s(0), ("TCPUDPSetup",)), (s(25), s(1), s(0), ("IPv4Setup",)), (s(25), s(4), s(0), ("GPRSModemSetup",)), (s(25), s(6), s(0), ("GSMDiagnostic",)),
    (s(25), s(9), s(0), ("PushSetup",)), (s(25), s(10), s(0), ("NTPSetup",)),
    (s(43), s(1), None, (DATA,)),
    (s(96), s(1), s(R(11)), ("DeviceID",)), (s(96), s(1), s(255), (PROF,)),
    (s(96), s(2), None, ("DataDynamic",)),
    (s(96), s(3), s(R(4)), (DATA,)), (s(96), s(3), s(10), ("DisconnectControl",)), (s(96), s(3), s(R(20, 29)), ("Arbitrator",)),
    (s(96), s(4, 5), s(0), (DATA, PROF)), (s(96), s(4, 5), s(R(1, 5)), (DATA,)),
    (s(96), s(6), s(R(7)), MEAS), (s(96), s(7), s(R(22)), MEAS), (s(96), s(8), s(R(64)), MEAS), (s(96), s(9), s(R(3)), (REG, EXT)),
    (s(96), s(10), s(R(1, 10)), (DATA,)), (s(96), s(11), s(R(100)), ("DataDynamic", REG, EXT)),
    (s(96), s(12), s(0, 1, 2, 3, 5, 6), MEAS), (s(96), s(12), s(4), ("PortParameter",)),
    (s(96), s(13), s(0, 1), MEAS), (s(96), s(14), s(R(16)), MEAS), (s(96), s(15), s(R(100)), MEAS), (s(96), s(16), s(R(10)), MEAS), (s(96), s(17), s(R(128)), MEAS),
    (s(96), s(20), None, MEAS),
    (s(97), s(97), s(R(10)), (DATA,)), (s(97), s(98), s(R(30)), (DATA,)), (s(97), s(97, 98), s(255), (PROF,)),
    (s(98), None, None, (PROF,)),
    (s(99), s(98), None, (PROF,)),
]
QUANTITY = s(R(256)) - {0, 93, 94, 96, 97, 98, 99}
TARIFF = s(1, 2, 11, 12, 21, 22, 8, 9, 10, 17, 18, 19, 20, 29, 30, 58, 46, 31, 35, 43, 44, 32, 36, 33, 37, 34, 38)
ELECTRICITY = [
    (s(0), s(0), s(R(10)), (DATA,)), (s(0), s(0), s(255), (PROF,)), (s(0), s(1), None, (DATA,)), (s(0), s(2), None, ("DataStatic",)),
    (s(0), s(3, 4, 7, 8, 9), None, ("DataStatic", REG, EXT)), (s(0), s(6, 10), None, (REG, EXT)), (s(0), s(11), s(R(1, 8)), (DATA,)),
    (s(96), s(1), s(R(10)), (DATA,)), (s(96), s(1), s(255), (PROF,)), (s(96), s(5), s(R(6)), (DATA,)), (s(96), s(10), s(R(4)), (DATA,)),
    (s(98), None, None, (PROF,)),
    (s(99), s(1, 2, 11, 12, 97, 98, 99), None, (PROF,)), (s(99), s(3, 13, 14), s(0), (PROF,)), (s(99), s(10), s(1, 2, 3), (PROF,)),
    (QUANTITY, TARIFF, None, (REG, EXT)),
    (QUANTITY, s(7, 39, 41, 42), None, (REG,)),
    (QUANTITY, s(3, 6, 13, 16, 26, 51, 52, 53, 54), None, (REG, EXT, PROF)),
    (QUANTITY, s(0, 4, 5, 14, 15, 24, 25, 27, 28, 49, 50, 55, 56), None, (REG, DEM)),
    (QUANTITY, s(40), None, (DATA, REG)),
]
# rows with a value group B: full A.B.C.D.E
FULL = {(0, 0, 42, 0, 0): ("LDN",)}
FULL |= {(0, 0, 40, 0, e): ("AssociationSN", "AssociationLN") for e in R(8)}
FULL |= {(0, 0, 43, 0, e): ("SecuritySetup",) for e in R(256)}
FULL |= {(0, 0, 44, 0, e): ("ImageTransfer",) for e in R(256)}

SP_ABSTRACT = [
    (s(21), s(0), None, ("DisplayReadout",)),
    (s(96), s(1), s(0, 2, 4, 5, 8, 9, 10), ("IDNotSpecific",)), (s(96), s(1), s(6), ("SPODESVersion",)),
    (s(96), s(2), s(1, 2, 3, 5, 6, 7, 11, 12), ("AnyDateTime",)),
    (s(96), s(3), s(20), ("SPODES3Arbitrator",)),
    (s(96), s(5), s(1), ("Quality1",)), (s(96), s(5), s(4), ("Quality2",)),
    *[(s(96), s(11), s(i), ("ev%d" % i,)) for i in R(9)],
]
SP_ELECTRICITY = [
    (s(0), s(8), s(4, 5), ("MeasurementPeriod",)),
    (s(98), s(1), None, ("MonthProfile",)), (s(98), s(2), None, ("DailyProfile",)), (s(99), s(1, 2), None, ("LoadProfile",)),
    (s(94), s(7), s(0), ("CurrentProfile",)), (s(94), s(7), s(R(1, 7)), ("ScalesProfile",)),
]
SP_FULL = {(0, 0, 96, 51, 0): ("OpeningBody",), (0, 0, 96, 51, 5): ("SealStatus",), (0, 0, 96, 5, 132): ("Unsigned",),
           **{(0, 0, 96, 51, e): ("Unsigned",) for e in (1, 3, 4, 6, 7)}, **{(0, 0, 96, 51, e): ("OctetStringDateTime",) for e in (8, 9)},
           (1, 0, 131, 35, 0): (REG,), (1, 0, 133, 35, 0): (REG,), (1, 0, 147, 133, 0): (REG,), (1, 0, 148, 136, 0): (REG,),
           **{(128, 0, c, 0, 0): (REG,) for c in R(20)}}
KPZ_FULL = {(0, 128, 96, 13, 1): ("ITEBitMap",), (0, 128, 154, 0, 0): ("KPZGSMPingIP",)}
KPZ1_ABSTRACT = [(s(96), s(11), s(i), ("kpz1ev%d" % i,)) for i in R(9)]

TABLES = {}
TABLES["DLMS_6"] = ([ABSTRACT], [ELECTRICITY], FULL)
TABLES["SPODES_3"] = ([SP_ABSTRACT, ABSTRACT], [SP_ELECTRICITY, ELECTRICITY], {**FULL, **SP_FULL})
TABLES["KPZ"] = (TABLES["SPODES_3"][0], TABLES["SPODES_3"][1], {**FULL, **SP_FULL, **KPZ_FULL})
TABLES["KPZ1"] = ([KPZ1_ABSTRACT] + TABLES["SPODES_3"][0], TABLES["SPODES_3"][1], {**FULL, **SP_FULL, **KPZ_FULL})


def specific(ln):
    """manufacturer specific, table 54"""
    a, b, c, d, e, f = ln
    return 128 <= b <= 199 or 128 <= c <= 199 or c == 240 or any(128 <= x <= 254 for x in (d, e, f))


_rowcache = {}


def resolve(spec, ln):
    """names of the allowed classes, None when any class may be used"""
    a, b, c, d, e, f = ln
    abstract, elec, full = TABLES[spec]
    if specific(ln):
        return full.get((a, b, c, d, e))
    layers = abstract if a == 0 else elec if a == 1 else []
    for level in ("CDE", "CD"):
        key = (spec, a, c, d, e if level == "CDE" else None)
        if key not in _rowcache:
            _rowcache[key] = next((cl for rows_ in layers for C, D, E, cl in rows_
                                   if D is not None and (E is not None) == (level == "CDE") and c in C and d in D and (E is None or e in E)), None)
        if _rowcache[key]:
            return _rowcache[key]
    if (a, b, c, d, e) in full:
        return full[(a, b, c, d, e)]
    return next((cl for rows_ in layers for C, D, E, cl in rows_ if D is None and c in C), None)


def rows(spec):
    """(A, C, D) with a row that depends on E"""
    out = set()
    abstract, elec, full = TABLES[spec]
    for a, layers in ((0, abstract), (1, elec)):
        for r in layers:
            out |= {(a, c, d) for C, D, E, _ in r if E is not None for c in C for d in D}
    out |= {(k[0], k[2], k[3]) for k in full}
    return sorted(out)


D0 = lambda n: {0: n}
ASS = {0: "AssociationLNVer0", 1: "AssociationLNVer1", 2: "AssociationLNVer2"}
NO = "unsupported"
EXPAND = {
    DATA: (1, D0("Data")), REG: (3, D0("Register")), EXT: (4, D0("ExtendedRegister")), DEM: (5, D0("DemandRegisterVer0")), PROF: (7, {0: NO, 1: "ProfileGenericVer1"}),
    "DataStatic": (1, D0("data.DataStatic")), "DataDynamic": (1, D0("data.DataDynamic")), "ActiveFirmwareId": (1, D0("data.ActiveFirmwareId")), "LDN": (1, D0("data.LDN")),
    "DeviceID": (1, D0("data.DLMSDeviceIDObject")), "PortParameter": (1, D0("data.CommunicationPortParameter")),
    "Clock": (8, D0("Clock")), "ModemConfiguration": (27, {0: "PSTNModemConfiguration", 1: "ModemConfigurationVer1"}), "ScriptTable": (9, D0("ScriptTable")),
    "SpecialDaysTable": (11, D0("SpecialDaysTable")), "Schedule": (10, D0("Schedule")), "ActivityCalendar": (20, D0("ActivityCalendar")), "RegisterActivation": (6, D0("RegisterActivation")),
    "SingleActionSchedule": (22, D0("SingleActionSchedule")), "RegisterMonitor": (21, D0("RegisterMonitor")), "Limiter": (71, D0("Limiter")), "IECHDLCSetup": (23, {0: NO, 1: "IECHDLCSetupVer1"}),
    "DisconnectControl": (70, D0("DisconnectControl")), "TCPUDPSetup": (41, D0("TCPUDPSetup")), "IPv4Setup": (42, D0("IPv4Setup")), "GPRSModemSetup": (45, D0("GPRSModemSetup")),
    "GSMDiagnostic": (47, {0: "GSMDiagnosticVer0", 1: "GSMDiagnosticVer1", 2: NO}), "PushSetup": (40, {0: NO, 1: NO, 2: "PushSetupVer2"}), "NTPSetup": (100, D0("NTPSetup")),
    "Arbitrator": (68, D0("Arbitrator")), "AssociationSN": (12, D0(NO)), "AssociationLN": (15, ASS), "SecuritySetup": (64, {0: "SecuritySetupVer0", 1: "SecuritySetupVer1"}),
    "ImageTransfer": (18, D0("ImageTransfer")),
    "DisplayReadout": (7, {1: "profile_generic.SPODES3DisplayReadout"}), "IDNotSpecific": (1, D0("data.SPODES3IDNotSpecific")), "SPODESVersion": (1, D0("data.SPODES3SPODESVersion")),
    "AnyDateTime": (1, D0("data.AnyDateTime")), "SPODES3Arbitrator": (68, D0("arbitrator.SPODES3Arbitrator")), "Quality1": (1, D0("data.SPODES3PowerQuality1Event")),
    "Quality2": (1, D0("data.SPODES3PowerQuality2Event")), "OpeningBody": (1, D0("data.OpeningBody")), "SealStatus": (1, D0("data.SealStatus")), "Unsigned": (1, D0("data.Unsigned")),
    "OctetStringDateTime": (1, D0("data.OctetStringDateTime")), "MeasurementPeriod": (1, D0("data.SPODES3MeasurementPeriod")),
    "MonthProfile": (7, {1: "profile_generic.SPODES3MonthProfile"}), "DailyProfile": (7, {1: "profile_generic.SPODES3DailyProfile"}), "LoadProfile": (7, {1: "profile_generic.SPODES3LoadProfile"}),
    "CurrentProfile": (7, {1: "profile_generic.SPODES3CurrentProfile"}), "ScalesProfile": (7, {1: "profile_generic.SPODES3ScalesProfile"}),
    "ITEBitMap": (1, D0("data.ITEBitMap")), "KPZGSMPingIP": (1, D0("data.KPZGSMPingIP")),
}
for _i, _n in enumerate(("Voltage", "Current", "Commutation", "Programming", "External", "Communication", "Access", "SelfDiagnostic", "ReactivePower")):
    EXPAND["ev%d" % _i] = (1, D0(f"data.SPODES3{_n}Event"))
    EXPAND["kpz1ev%d" % _i] = (1, D0(f"data.KPZ1SPODES3{_n}Event"))
COMMON = {EXPAND[k][0]: EXPAND[k][1] for k in (
    DATA, REG, EXT, DEM, PROF, "RegisterActivation", "Clock", "ScriptTable", "Schedule", "SpecialDaysTable", "AssociationLN", "ImageTransfer", "ActivityCalendar", "RegisterMonitor", "SingleActionSchedule",
    "IECHDLCSetup", "ModemConfiguration", "TCPUDPSetup", "IPv4Setup", "GPRSModemSetup", "GSMDiagnostic", "SecuritySetup", "Arbitrator", "DisconnectControl", "Limiter", "NTPSetup")}
