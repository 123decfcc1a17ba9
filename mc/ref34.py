"""Reference for the names of COSEM objects: logical-name patterns and the constant of Values/<language>/relation_to_obis_names.py
that names them ("class X": the name of the class).  First row that fits wins; * in group B: the channel is appended; * in
group E: the instance is appended."""
ROWS = """
0.*.0.2.0 ACTIVE_FIRMWARE_IDENTIFIER
0.*.0.2.0 ACTIVE_FIRMWARE_IDENTIFIER
0.*.0.2.1 ACTIVE_FIRMWARE_VERSION
0.*.0.2.8 ACTIVE_FIRMWARE_SIGNATURE
0.*.1.0.* class CLOCK
0.*.2.0.* class MODEM_CONFIGURATION
0.*.10.0.0 GLOBAL_METER_RESET_SCRIPT_TABLE
0.*.10.0.1 MDI_RESET_END_OF_BILLING_PERIOD_SCRIPT_TABLE
0.*.10.0.100 TARIFFICATION_SCRIPT_TABLE
0.*.10.0.103 SET_OUTPUT_SIGNALS_SCRIPT_TABLE
0.*.10.0.106 DISCONNECT_CONTROL_SCRIPT_TABLE
0.*.10.0.107 IMAGE_ACTIVATION_SCRIPT_TABLE
0.*.10.0.108 PUSH_SCRIPT_TABLE
0.*.10.0.128 RU_STOP_FRAME_SCRIPT_TABLE
0.*.11.0.* class SPECIAL_DAYS_TABLE
0.*.12.0.* class SCHEDULE
0.*.13.0.* class ACTIVITY_CALENDAR
0.*.14.0.* class REGISTER_ACTIVATION
0.*.15.0.0 END_OF_BILLING_PERIOD_SINGLE_ACTION_SCHEDULE
0.*.15.0.1 DISCONNECT_CONTROL_SINGLE_ACTION_SCHEDULE
0.*.15.0.2 IMAGE_ACTIVATION_SINGLE_ACTION_SCHEDULE
0.*.15.0.3 OUTPUT_CONTROL_SINGLE_ACTION_SCHEDULE
0.*.15.0.4 PUSH_SINGLE_ACTION_SCHEDULE
0.*.15.0.5 LOAD_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE
0.*.15.0.6 M_BUS_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE
0.*.15.0.7 FUNCTION_CONTROL_SINGLE_ACTION_SCHEDULE
0.*.16.1.1 RU_ALARM_MONITOR_1
0.*.17.0.0 RU_LIMITER_BY_POWER
0.*.17.0.1 RU_LIMITER_BY_CURRENT
0.*.17.0.2 RU_LIMITER_BY_VOLTAGE
0.*.17.0.3 RU_LIMITER_BY_MAGNETIC
0.*.17.0.4 RU_LIMITER_BY_DIFFERENCE_CURRENT
0.*.17.0.5 RU_LIMITER_BY_TEMPERATURE
0.*.17.0.* class LIMITER
0.0.21.0.1 GENERAL_DISPLAY_READOUT
0.0.21.0.2 ALTERNATE_DISPLAY_READOUT
0.0.22.0.0 RU_IEC_HDLC_SETUP_OPTO
0.1.22.0.0 RU_IEC_HDLC_SETUP_RS_485
0.2.22.0.0 RU_IEC_HDLC_SETUP_GSM
0.*.22.0.0 class IEC_HDLC_SETUP
0.*.25.0.0 class TCP_UDP_SETUP
0.*.25.1.0 class IPV4_SETUP
0.*.25.4.0 class GPRS_MODEM_SETUP
0.*.25.6.0 class GSM_DIAGNOSTIC
0.*.25.9.0 class PUSH_SETUP
0.*.25.10.0 class NTP_SETUP
0.0.40.0.0 CURRENT_ASSOCIATION
0.0.40.0.1 RU_PUBLIC_CLIENT_ASSOCIATION
0.0.40.0.2 RU_METER_READER_ASSOCIATION
0.0.40.0.3 RU_UTILITY_SETTING_ASSOCIATION
0.0.40.0.4 RU_PUBLIC_CLIENT_ASSOCIATION
0.0.40.0.* class ASSOCIATION_LN
0.0.42.0.0 COSEM_LOGICAL_DEVICE_NAME
0.0.43.0.* class SECURITY_SETUP
0.*.43.1.* INVOCATION_COUNTER
0.0.44.0.* class IMAGE_TRANSFER
0.0.94.7.1 RU_SPECIFIC_PASSPORT_DATA_PROFILE
0.*.96.1.0 RU_DEVICE_FACTORY_NUMBER
0.*.96.1.1 RU_DEVICE_TYPE
0.*.96.1.2 RU_DEVICE_METROLOGICAL_VERSION
0.*.96.1.3 RU_PRODUCER_NAME
0.*.96.1.4 RU_DEVICE_RELEASE_DATE
0.*.96.1.5 RU_REMOTE_CONSOLE_SERIAL_NUMBER
0.*.96.1.6 RU_SPODES_VERSION
0.*.96.1.7 RU_DEVICE_CONNECTION_SCHEME
0.*.96.1.8 SPODES3_NOT_METROLOGICAL_FIRMWARE_ID
0.*.96.1.9 RU_DEVICE_ID
0.*.96.1.10 RU_COUNTER_POINT_DATA
0.*.96.2.0 NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES
0.*.96.2.1 DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE
0.*.96.2.2 DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE
0.*.96.2.3 DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE
0.*.96.2.4 STATUS_OF_SECURITY_SWITCHES
0.*.96.2.5 DATE_A_OF_LAST_CALIBRATION
0.*.96.2.6 DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE
0.*.96.2.7 DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR
0.*.96.2.10 NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES
0.*.96.2.11 DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE
0.*.96.2.12 DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING
0.*.96.2.13 DATE_OF_LAST_FIRMWARE_ACTIVATION
0.*.96.3.0 I_O_CONTROL_SIGNAL_OBJECTS_GLOBAL
0.*.96.3.10 class DISCONNECT_CONTROL
0.*.96.3.20 RU_RELAY_LOAD_ARBITRATOR
0.0.96.4.1 RU_LCD_BACKLIGHT_MODE
0.0.96.4.3 RU_LOAD_LOCK_STATUS
0.0.96.5.0 INTERNAL_OPERATING_STATUS_GLOBAL
0.0.96.5.1 INTERNAL_OPERATING_STATUS_1
0.0.96.5.2 INTERNAL_OPERATING_STATUS_2
0.0.96.5.3 INTERNAL_OPERATING_STATUS_3
0.0.96.5.4 INTERNAL_OPERATING_STATUS_4
0.0.96.5.132 SPODES3_PHASE_ALTERNATING_CONTROL
0.*.96.8.0 TIME_OF_OPERATION
0.*.96.8.10 RU_DURATION_OF_FAILURE_OVERSTRAIN
0.*.96.9.0 RU_AMBIENT_TEMPERATURE
0.*.96.11.0 EVENTS_RELATED_TO_VOLTAGE
0.*.96.11.1 RU_EVENTS_RELATED_TO_CURRENT
0.*.96.11.2 RU_EVENTS_RELATED_TO_LOAD_RELAY
0.*.96.11.3 RU_EVENTS_FOR_PROGRAMMING_DEVICE_PARAMETERS
0.*.96.11.4 RU_EXTERNAL_IMPACT_EVENTS
0.*.96.11.5 RU_COMMUNICATION_EVENTS
0.*.96.11.6 RU_ACCESS_CONTROL_EVENTS
0.*.96.11.7 RU_EVENT_CODES_FOR_THE_SELF_DIAGNOSIS_LOG
0.*.96.11.8 RU_EVENTS_FOR_EXCEEDING_THE_REACTIVE_POWER
0.*.96.12.4 RU_CHANNEL_NUMBER_INTERFACE
0.*.96.12.6 COMMUNICATION_ADDRESS
0.128.96.12.0 KPZ_INTERFACE_LIST
0.*.96.13.0 LOCAL_CONSUMER_MESSAGE
0.*.96.13.1 DISPLAY_CONSUMER_MESSAGE
0.*.96.15.0 RU_RELAY_TRIGGERING_METER_FOR_OPENING
0.*.96.20.0 METER_OPEN_EVENT_COUNTER
0.*.96.20.1 METER_OPEN_EVENT_TIME_STAMP
0.*.96.20.2 METER_OPEN_EVENT_DURATION
0.*.96.20.3 METER_OPEN_EVENT_CUMULATIVE_DURATION
0.*.96.20.5 TERMINAL_COVER_OPEN_EVENT_COUNTER
0.*.96.20.6 TERMINAL_COVER_OPEN_EVENT_TIME_STAMP
0.*.96.20.7 TERMINAL_COVER_OPEN_EVENT_DURATION
0.*.96.20.8 TERMINAL_COVER_OPEN_EVENT_CUMULATIVE
0.*.96.20.10 TILT_EVENT_COUNTER
0.*.96.20.11 TILT_EVENT_TIME_STAMP
0.*.96.20.12 TILT_EVENT_DURATION
0.*.96.20.13 TILT_EVENT_CUMULATIVE_DURATION
0.*.96.20.15 STRONG_DC_MAGNETIC_FIELD_EVENT_COUNTER
0.*.96.20.16 STRONG_DC_MAGNETIC_FIELD_EVENT_TIME_STAMP
0.*.96.20.17 STRONG_DC_MAGNETIC_FIELD_EVENT_DURATION
0.*.96.20.18 STRONG_DC_MAGNETIC_FIELD_EVENT_CUMULATIVE_DURATION
0.*.96.20.20 SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_COUNTER
0.*.96.20.21 SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_TIME_STAMP
0.*.96.20.22 SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_DURATION
0.*.96.20.23 SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_CUMULATIVE_DURATION
0.*.96.20.25 METROLOGY_TAMPER_EVENT_COUNTER
0.*.96.20.26 METROLOGY_TAMPER_EVENT_TIME_STAMP
0.*.96.20.27 METROLOGY_TAMPER_EVENT_DURATION
0.*.96.20.28 METROLOGY_TAMPER_EVENT_CUMULATIVE_DURATION
0.*.96.20.30 COMMUNICATION_TAMPER_EVENT_COUNTER
0.*.96.20.31 COMMUNICATION_TAMPER_EVENT_TIME_STAMP
0.*.96.20.32 COMMUNICATION_TAMPER_EVENT_DURATION
0.*.96.20.33 COMMUNICATION_TAMPER_EVENT_CUMULATIVE_DURATION
0.0.96.51.0 RU_BODY_OPENING_STATE
0.0.96.51.1 RU_TERMINALS_COVER_OPENING_STATE
0.0.96.51.3 RU_MAGNETIC_FIELD_STATE
0.0.96.51.4 RU_HF_FIELD_STATE
0.0.96.51.5 RU_ELECTRONIC_SEALS_FIXED_STATE_OF_EVENTS
0.0.96.51.6 RU_PRESSING_ELECTRONIC_SEALS
0.0.96.51.7 RU_CLEAR_OF_ELECTRONIC_SEALS_FIXED_STATE
0.0.96.51.8 RU_FIRST_OPENING_TIME_OF_BODY
0.0.96.51.9 RU_FIRST_OPENING_TIME_OF_TERMINALS_COVER
0.0.97.98.0 RU_ALARM_REGISTER_1
0.0.97.98.1 RU_ALARM_REGISTER_2
0.0.97.98.10 RU_ALARM_FILTER_1
0.0.97.98.11 RU_ALARM_FILTER_2
0.*.99.1.* LOAD_PARAMETERS_PROFILE
0.*.99.13.* GSM_DIAGNOSTIC_PROFILE
0.*.99.98.0 RU_VOLTAGE_LOG
0.*.99.98.1 RU_CURRENT_LOG
0.*.99.98.2 RU_COMMUTATION_LOG
0.*.99.98.3 RU_DATA_CORRECTION_LOG
0.*.99.98.4 RU_EXTERNAL_IMPACT_LOG
0.*.99.98.5 RU_COMMUNICATION_LOG
0.*.99.98.6 RU_ACCESS_LOG
0.*.99.98.7 RU_SELF_DIAGNOSTIC_LOG
0.*.99.98.8 RU_REACTIVE_POWER_LOG
0.*.99.98.9 RU_QUALITY_POWER_LOG
0.*.99.98.10 RU_STATUS_I_O_LOG
0.*.99.98.12 RU_REACTIVE_POWER_LIMIT_LOG
0.*.99.98.13 RU_TIME_CORRECTION_LOG
0.*.99.98.14 RU_START_YEAR_LOG
0.*.99.98.15 RU_QUALITY_FOR_CALCULATION_PERIOD_LOG
0.*.99.98.16 RU_CONTROL_POWER_LOG
0.*.99.98.17 RU_BATTERY_LOG
0.*.99.98.18 RU_CONTROL_OF_LOAD_RELAY_BLOCKER_LOG
0.*.99.98.19 RU_TEMPERATURE_CONTROL_LOG
0.*.99.98.26 RU_OVER_VOLTAGE_LOG
0.*.99.98.27 RU_VOLTAGE_INTERRUPTION_LOG
0.*.99.98.28 RU_ABNORMAL_NETWORK_SITUATION_LOG
0.*.99.98.* class PROFILE_GENERIC
0.0.128.99.0 KPZ_RELAY_TURN_COUNTER
0.0.128.100.0 ITE_FIRMWARE_DESCRIPTOR
0.0.128.100.0 ITE_FIRMWARE_DESCRIPTOR
0.0.128.101.0 ITE_MAGNETIC_SENSOR_STATUS
0.0.128.102.0 ITE_DISCRETE_OUTPUTS
0.0.128.103.0 ITE_SETTING_OF_RELAY_INCLUSION_PER_DAY
0.0.128.150.0 ITE_SETTINGS_MESSAGES
0.0.128.151.0 ITE_CORE_REGISTERS
0.0.128.152.0 ITE_BLE_ID
0.0.128.170.0 ITE_ICCID
0.0.128.171.0 KPZ_IMSI
1.*.0.2.0 ACTIVE_FIRMWARE_IDENTIFIER
1.*.0.2.8 ACTIVE_FIRMWARE_SIGNATURE
1.*.0.3.3 ACTIVE_ENERGY_OUTPUT_PULSE
1.*.0.3.4 REACTIVE_ENERGY_OUTPUT_PULSE
1.*.0.4.2 TRANSFORMER_RATIO_CURRENT
1.*.0.4.3 TRANSFORMER_RATIO_VOLTAGE
1.*.0.6.0 NOMINAL_VOLTAGE
1.*.0.6.1 NOMINAL_CURRENT
1.*.0.6.2 NOMINAL_FREQUENCY
1.*.0.6.3 MAXIMUM_CURRENT
1.*.0.6.4 REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT
1.*.0.6.5 REFERENCED_VOLTAGE_FOR_AUX_POWER_SUPPLY
1.*.0.8.4 RECORDING_INTERVAL_1_FOR_LOAD_PROFILE
1.*.0.8.5 RECORDING_INTERVAL_2_FOR_LOAD_PROFILE
1.*.0.10.0 TRANSFORMER_MAGNETIC_LOSSES
1.*.0.10.1 TRANSFORMER_IRON_LOSSES
1.*.0.10.2 LINE_RESISTANCE_LOSSES
1.*.0.10.3 LINE_REACTANCE_LOSSES
1.*.94.7.0 RU_PROFILE_OF_CURRENT_VALUES
1.*.94.7.1 RU_SCALE_PROFILE_FOR_THE_MAGAZINE_OF_MONTHLY_INDICATIONS
1.*.94.7.2 RU_SCALE_PROFILE_FOR_A_JOURNAL_OF_DAILY_INDICATION
1.*.94.7.3 RU_SCALE_PROFILE_FOR_CURRENT_FRAMES_OF_CURRENT_VALUES
1.*.94.7.4 RU_SCALE_PROFILE_FOR_LOAD_PROFILES
1.*.94.7.5 RU_TELEMECHANICS_PROFILE_FOR_TELEVISION_MEASUREMENTS
1.*.94.7.6 RU_TELEMECHANICS_PROFILE_OF_TELEVISION_SIGNALING
1.*.98.1.* RU_MONTHLY_PROFILE
1.*.98.2.* RU_DAILY_PROFILE
1.*.99.1.* RU_LOAD_PROFILE
128.0.0.0.0 ITE_CALIBRATION_STATUS
128.0.1.0.0 ITE_CALIBRATION_APPARENT_POWER
128.0.2.0.0 ITE_CALIBRATION_ACTIVE_POWER
128.0.3.0.0 ITE_CALIBRATION_REACTIVE_POWER
128.0.4.0.0 ITE_CALIBRATION_VOLTAGE
128.0.5.0.0 ITE_CALIBRATION_CURRENT
128.0.6.0.0 ITE_CALIBRATION_ANGLE
128.0.7.0.0 ITE_DISPLAY_SETTING_1
128.0.8.0.0 ITE_DISPLAY_SETTING_2
128.0.9.0.0 ITE_CLOCK_OFFSET_SETTING
128.0.10.0.0 ITE_FACTORY_SETTING_10
128.0.11.0.0 ITE_FACTORY_SETTING_11
128.0.12.0.0 ITE_FACTORY_SETTING_12
128.0.13.0.0 ITE_FACTORY_SETTING_13
128.0.14.0.0 ITE_FACTORY_SETTING_14
128.0.15.0.0 ITE_FACTORY_SETTING_15
128.0.16.0.0 ITE_FACTORY_SETTING_16
128.0.17.0.0 ITE_FACTORY_SETTING_17
128.0.18.0.0 ITE_FACTORY_SETTING_18
128.0.19.0.0 ITE_FACTORY_SETTING_19
"""

#: quantities of electricity, by group C modulo 20 (1..20); 21-40: L1, 41-60: L2, 61-80: L3
QUANTITY = ["", "ACTIVE_POWER_PLUS", "ACTIVE_POWER_MINUS", "REACTIVE_POWER_PLUS", "REACTIVE_POWER_MINUS", "REACTIVE_POWER_QI", "REACTIVE_POWER_QII", "REACTIVE_POWER_QIII", "REACTIVE_POWER_QIV",
            "APPARENT_POWER_PLUS", "APPARENT_POWER_MINUS", "CURRENT", "VOLTAGE", "POWER_FACTOR", "SUPPLY_FREQUENCY", "ACTIVE_POWER_ABS_PLUS", "ACTIVE_POWER_ABS_MINUS", "ACTIVE_POWER_QI",
            "ACTIVE_POWER_QII", "ACTIVE_POWER_QIII", "ACTIVE_POWER_QIV"]
OTHER_C = {88: ["CUMULATIVE_AMPERE_SQUARED_HOURS"], 89: ["CUMULATIVE_VOLT_SQUARED_HOURS"], 124: ["RU_LINEAR_VOLTAGE", "L1_L2"], 125: ["RU_LINEAR_VOLTAGE", "L2_L3"], 126: ["RU_LINEAR_VOLTAGE", "L3_L1"],
           128: ["POWER_REACTIVE_FACTOR", "L1"], 129: ["POWER_REACTIVE_FACTOR", "L2"], 130: ["POWER_REACTIVE_FACTOR", "L3"], 131: ["POWER_REACTIVE_FACTOR", "ALL_PHASE"], 133: ["VOLTAGE_ASYMMETRY_COEFFICIENT"]}
PROCESSING = {
    0: "BILLING_PERIOD_AVERAGE_SINCE_LAST_RESET", 1: "CUMULATIVE_MINIMUM_1", 2: "CUMULATIVE_MAXIMUM_1", 3: "MINIMUM_1", 4: "CURRENT_AVERAGE_1", 5: "LAST_AVERAGE_1", 6: "MAXIMUM_1",
    7: "INSTANTANEOUS_VALUE", 8: "TIME_INTEGRAL_1", 9: "TIME_INTEGRAL_2", 10: "TIME_INTEGRAL_3", 11: "CUMULATIVE_MINIMUM_2", 12: "CUMULATIVE_MAXIMUM_2", 13: "MINIMUM_2", 14: "CURRENT_AVERAGE_2",
    15: "LAST_AVERAGE_2", 16: "MAXIMUM_2", 17: "TIME_INTEGRAL_7", 18: "TIME_INTEGRAL_8", 19: "TIME_INTEGRAL_9", 20: "TIME_INTEGRAL_10", 21: "CUMULATIVE_MINIMUM_3", 22: "CUMULATIVE_MAXIMUM_3",
    23: "MINIMUM_3", 24: "CURRENT_AVERAGE_3", 25: "LAST_AVERAGE_3", 26: "MAXIMUM_3", 27: "CURRENT_AVERAGE_5", 28: "CURRENT_AVERAGE_6", 29: "TIME_INTEGRAL_5", 30: "TIME_INTEGRAL_6",
    31: "UNDER_LIMIT_THRESHOLD", 32: "UNDER_LIMIT_OCCURRENCE_COUNTER", 33: "UNDER_LIMIT_DURATION", 34: "UNDER_LIMIT_MAGNITUDE", 35: "OVER_LIMIT_THRESHOLD", 36: "OVER_LIMIT_OCCURRENCE_COUNTER",
    37: "OVER_LIMIT_DURATION", 38: "OVER_LIMIT_MAGNITUDE", 39: "MISSING_THRESHOLD", 40: "MISSING_OCCURRENCE_COUNTER", 41: "MISSING_DURATION", 42: "MISSING_MAGNITUDE",
    43: "TIME_THRESHOLD_FOR_UNDER_LIMIT", 44: "TIME_THRESHOLD_FOR_OVER_LIMIT", 45: "TIME_THRESHOLD_FOR_MISSING_MAGNITUDE", 46: "CONTRACTED_VALUE", 49: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_1",
    50: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_2", 51: "MINIMUM_FOR_RECORDING_INTERVAL_1", 52: "MINIMUM_FOR_RECORDING_INTERVAL_2", 53: "MAXIMUM_FOR_RECORDING_INTERVAL_1",
    54: "MAXIMUM_FOR_RECORDING_INTERVAL_2", 55: "TEST_AVERAGE", 56: "CURRENT_AVERAGE_4_FOR_HARMONICS_MEASUREMENT", 58: "TIME_INTEGRAL_4", 128: "RU_POSITIVE_DEVIATION", 129: "RU_NEGATIVE_DEVIATION",
    133: ("RU_TOTAL_DEVIATION_TIME", "BILLING_PERIOD"), 134: "RU_CHANGE_LIMIT_LEVEL"}
HARMONIC = {0: "TOTAL_FUND_ALL", 124: "THD", 125: "TDD", 126: "ALL_HARMONICS", 127: "ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO"}
ANGLE = ["U_L1", "U_L2", "U_L3", None, "I_L1", "I_L2", "I_L3", "I_L0"]


def _rows():
    out = []
    for line in ROWS.split("\n"):
        if line.strip():
            pat, *name = line.split()
            out.append((tuple(None if p == "*" else int(p) for p in pat.split(".")), name))
    return out


TABLE = _rows()
BY = {}
for _p, _n in TABLE:
    BY.setdefault((_p[0], _p[2], _p[3]), []).append((_p, _n))


def one(n):
    return [n] if isinstance(n, str) else list(n)


def words(a, b, c, d, e):
    """the words of the name, each the name of a constant, ("class", name) or ready text in a 1-tuple; None: no such name;
    ("?",) stands for a part that has no name"""
    ch = [] if b == 0 else ["CHANNEL", (str(b),)] if b <= 64 else ["UTILITY_SPECIFIC", (str(b),)] if b <= 127 else ["MANUFACTURER_SPECIFIC", (str(b),)] if b <= 199 else ["RESERVED", (str(b),)]
    if (a, c, d) == (0, 99, 98) and 20 <= e <= 25:
        return [["RU_VOLTAGE_DEVIATION_LOG", "L1"], ["RU_VOLTAGE_DEVIATION_LOG", "L2"], ["RU_VOLTAGE_DEVIATION_LOG", "L3"], ["RU_LINEAR_VOLTAGE_DEVIATION_LOG", "L1_L2"],
                ["RU_LINEAR_VOLTAGE_DEVIATION_LOG", "L2_L3"], ["RU_LINEAR_VOLTAGE_DEVIATION_LOG", "L3_L1"]][e - 20] + ch
    for p, n in BY.get((a, c, d), ()):
        if p[1] in (None, b) and p[4] in (None, e):
            w = [("class", n[1])] if n[0] == "class" else [n[0]]
            if p[1] is None:
                w += ch
            if p[4] is None and e:
                w += ["INSTANCE" if e <= 127 else "MANUFACTURER_SPECIFIC", (str(e),)]
            return w
    if a == 0:
        if (b, c, d, e) == (128, 154, 0, 0):
            return [("KPZPingTestSetup",)]
        return None
    if a != 1:
        return None
    proc = one(PROCESSING.get(d, ("?",))) if d in PROCESSING else [("?",)]
    rate = ["TOTAL"] if e == 0 else ["RATE", (str(e),)] if e <= 63 else ["MANUFACTURER_SPECIFIC", (str(e),)] if e <= 254 else ["RESERVED"]
    har = [HARMONIC[e]] if e in HARMONIC else ["HARMONIC", (str(e),)] if e <= 120 else [("?",)]
    if (c, d) == (0, 0):
        return ["COMPLETE_COMBINED_ELECTRICITY_ID", (str(e + 1),)] + ch
    if c in (11, 12):
        if d == 7:
            return ch + [QUANTITY[c]] + har
        if (d, e) == (134, 0):
            return ch + [QUANTITY[c], "RU_CHANGE_LIMIT_LEVEL"]
        return ch + ["ANY_PHASE", QUANTITY[c]] + proc + har
    if 1 <= c <= 20:
        return ch + ["CUMULATIVE", QUANTITY[c]] + proc + rate
    if 21 <= c <= 80:
        return ch + [["L1", "L2", "L3"][(c - 21) // 20], QUANTITY[(c - 1) % 20 + 1]] + proc + rate
    if c in OTHER_C:
        return ch + OTHER_C[c] + proc + rate
    if c == 91:
        if d == 7 and e in (131, 132):
            return (["RU_DIFFERENTIAL_CURRENT", "INSTANTANEOUS_VALUE"] if e == 131 else ["RU_DIFFERENTIAL_CURRENT", "PERCENT", "INSTANTANEOUS_VALUE"]) + ch
        if d <= 127:
            return ch + ["L0_CURRENT_NEUTRAL"] + proc + har
    if c == 137 and e == 128:
        return ch + ["REACTIVE_FACTOR"] + proc
    if (b, c, d, e) == (0, 147, 133, 0):
        return ["RU_TOTAL_DEVIATION_TIME", "FOR", "VOLTAGE", "BILLING_PERIOD"]
    if (b, c, d, e) == (0, 148, 36, 0):
        return ["OVER_VOLTAGE_COUNTER", "BILLING_PERIOD"]
    if (c, d) == (81, 7) and e < 78 and e % 10 < 8:
        return ["ANGLE_FROM", ANGLE[e % 10] or "ERROR", "TO", ANGLE[e // 10] or "ERROR"] + ch
    if (c, d) == (94, 7):
        return ["COUNTRY_SPECIFIC_IDENTIFIER", (f"#{e + 1}",)] + ch
    if (c, d) == (99, 2):
        return ["RU_LOAD_PROFILE", ("#2",)] + ch + ([] if e == 0 else ["INSTANCE" if e <= 127 else "MANUFACTURER_SPECIFIC", (str(e),)])
    return None
