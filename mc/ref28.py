"""Groups of OBIS codes (Blue Book chapter 6), one row per table: value groups B C D E F, then the name of the group.
First matching row of the medium wins; a code in no row belongs to the medium as such."""


def cells(text):
    """'0-6,9' -> set of numbers; '*' -> None (any)"""
    if text == "*":
        return None
    out = set()
    for part in text.split(","):
        a, _, b = part.partition("-")
        out.update(range(int(a), int(b or a) + 1))
    return frozenset(out)


ABSTRACT = """
* 0 1 * *            BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES
* 0 2,9 * *          OTHER_ABSTRACT_GENERAL_PURPOSE_OBIS_CODES
* 1 0-6 * *          CLOCK_OBJECTS
* 2 0-2 * *          MODEM_CONFIGURATION_AND_RELATED_OBJECTS
* 10 0 0,1,100-111,125 * SCRIPT_TABLE_OBJECTS
* 11 0 * *           SPECIAL_DAYS_TABLE_OBJECTS
* 12 0 * *           SCHEDULE_OBJECTS
* 13 0 * *           ACTIVITY_CALENDAR_OBJECTS
* 14 0 * *           REGISTER_ACTIVATION_OBJECTS
* 15 0 0-7 *         SINGLE_ACTION_SCHEDULE_OBJECTS
* 16 0 * *           REGISTER_OBJECTS_MONITOR
* 16 1 0-9 *         REGISTER_OBJECTS_MONITOR
* 16 2 * *           PARAMETER_MONITOR_OBJECTS
* 17 0 * *           LIMITER_OBJECTS
* 18 0 * *           ARRAY_MANAGER_OBJECT
* 19 0-9 0 *         PAYMENT_METERING_RELATED_OBJECTS
* 19 10-49 * *       PAYMENT_METERING_RELATED_OBJECTS
* 19 50-59 1,2 *     PAYMENT_METERING_RELATED_OBJECTS
* 20 0 0,1 *         IEC_LOCAL_PORT_SETUP_OBJECTS
* 21 0 * *           STANDARD_READOUT_PROFILE_OBJECTS
* 22 0 0 *           IEC_HDLC_SETUP_OBJECTS
* 23 0-2 0 *         IEC_TWISTED_PAIR_1_SETUP_OBJECTS
* 23 3 * *           IEC_TWISTED_PAIR_1_SETUP_OBJECTS
* 24 0,1,4-6 0 *     OBJECTS_RELATED_TO_DATA_EXCHANGE_OVER_M_BUS
* 24 2,8,9 * *       OBJECTS_RELATED_TO_DATA_EXCHANGE_OVER_M_BUS
* 31 0 0 *           OBJECTS_RELATED_TO_DATA_EXCHANGE_OVER_M_BUS
* 25 0-7,10-15 0 *   OBJECTS_TO_SET_UP_DATA_EXCHANGE_OVER_THE_INTERNET
* 25 9 0 *           OBJECTS_TO_SET_UP_PUSH_SETUP
* 26 0-3,5,6 0 *     OBJECTS_FOR_SETTING_UP_DATA_EXCHANGE_USING_S_FSK_PLC
* 27 0-2 0 *         OBJECTS_FOR_SETTING_UP_THE_ISO_IEC_8802_2_LLC_LAYER
* 28 0-7 0 *         OBJECTS_FOR_DATA_EXCHANGE_USING_NARROWBAND_OFDM_PLC_FOR_PRIME_NETWORKS
* 29 0-2 0 *         OBJECTS_FOR_DATA_EXCHANGE_USING_NARROW_BAND_OFDM_PLC_FOR_G3_PLC_NETWORKS
* 30 0-4 * *         ZIGBEE_SETUP_OBJECTS
* 32 0-3 0 *         OBJECTS_FOR_SETTING_UP_AND_MANAGING_DATA_EXCHANGE_USING_ISO_IEC_14908_PLC_NETWORKS
* 33 0-3 0 *         OBJECTS_FOR_DATA_EXCHANGE_USING_HS_PLC_ISO_IEC_12139_1_ISO_EC_12139_1_NETWORKS
* 34 0-3 0 *         OBJECTS_FOR_DATA_EXCHANGE_USING_WI_SUN_NETWORKS
0 40 0 * *           ASSOCIATION_OBJECTS
0 41 0 0 *           SAP_ASSIGNMENT_OBJECT
0 42 0 0 *           COSEM_LOGICAL_DEVICE_NAME_OBJECT
0 43 0 * *           INFORMATION_SECURITY_RELATED_OBJECTS
* 43 1,2 * *         INFORMATION_SECURITY_RELATED_OBJECTS
0 44 0 * *           IMAGE_TRANSFER_OBJECTS
0 44 1 * *           FUNCTION_CONTROL_OBJECTS
0 44 2 * *           COMMUNICATION_PORT_PROTECTION_OBJECTS
* 65 0-63 * *        UTILITY_TABLE_OBJECTS
* 66 0 * *           COMPACT_DATA_OBJECTS
* 96 1 0-9,255 *     DEVICE_ID_OBJECTS
* 96 1 10 *          METERING_POINT_ID_OBJECTS
* 96 2 * *           PARAMETER_CHANGES_AND_CALIBRATION_OBJECTS
* 96 3 0-4 *         I_O_CONTROL_SIGNAL_OBJECTS
* 96 3 10 *          DISCONNECT_CONTROL_OBJECTS
* 96 3 20-29 *       ARBITRATOR_OBJECTS
* 96 4 0-4 *         STATUS_OF_INTERNAL_CONTROL_SIGNALS_OBJECTS
* 96 5 0-4 *         INTERNAL_OPERATING_STATUS_OBJECTS
* 96 6 0-6 *         BATTERY_ENTRIES_OBJECTS
* 96 7 0-21 *        POWER_FAILURE_MONITORING_OBJECTS
* 96 8 0-63 *        OPERATING_TIME_OBJECTS
* 96 9 0-2 *         ENVIRONMENT_RELATED_PARAMETERS_OBJECTS
* 96 10 1-10 *       STATUS_REGISTER_OBJECTS
* 96 11 0-99 *       EVENT_CODE_OBJECTS
* 96 12 0-6 *        COMMUNICATION_PORT_LOG_PARAMETER_OBJECTS
* 96 13 0,1 *        CONSUMER_MESSAGE_OBJECTS
* 96 14 0-15 *       CURRENTLY_ACTIVE_TARIFF_OBJECTS
* 96 15 0-99 *       EVENT_COUNTER_OBJECTS
* 96 16 0-9 *        PROFILE_ENTRY_DIGITAL_SIGNATURE_OBJECTS
* 96 17 0-127 *      PROFILE_ENTRY_COUNTER_OBJECTS
* 96 20 * *          METER_TAMPER_EVENT_RELATED_OBJECTS
* 96 50-99 * *       ABSTRACT_MANUFACTURER_SPECIFIC
* 97 97 0-9,255 *    ERROR_REGISTER_OBJECTS
* 97 98 0-29,255 *   ALARM_REGISTER_FILTER_DESCRIPTOR_OBJECTS
* 98 * * *           GENERAL_LIST_OBJECTS
* 99 1,2,12-18 * *   ABSTRACT_DATA_PROFILE_OBJECTS
* 99 3 0 *           ABSTRACT_DATA_PROFILE_OBJECTS
* 99 98 * *          EVENT_LOG_OBJECTS
* 127 0 * *          INACTIVE_OBJECTS
"""
ELECTRICITY = """
* 0 0 0-9,255 *      ID_NUMBERS_ELECTRICITY
* 0 1 * *            BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES_EL
* 0 2-4,6-10 * *     OTHER_ELECTRICITY_RELATED_GENERAL_PURPOSE_OBJECTS
* 0 11 1-7 *         MEASUREMENT_ALGORITHM
* 1,21,41,61 * * *   ACTIVE_POWER_PLUS
* 2,22,42,62 * * *   ACTIVE_POWER_MINUS
* 3,23,43,63 * * *   REACTIVE_POWER_PLUS
* 4,24,44,64 * * *   REACTIVE_POWER_MINUS
* 5,25,45,65 * * *   REACTIVE_POWER_QI
* 6,26,46,66 * * *   REACTIVE_POWER_QII
* 7,27,47,67 * * *   REACTIVE_POWER_QIII
* 8,28,48,68 * * *   REACTIVE_POWER_QIV
* 9,29,49,69 * * *   APPARENT_POWER_PLUS
* 10,30,50,70 * * *  APPARENT_POWER_MINUS
* 11,31,51,71 * * *  CURRENT
* 12,32,52,72 * * *  VOLTAGE
* 13,33,53,73 * * *  POWER_FACTOR
* 14,34,54,74 * * *  SUPPLY_FREQUENCY
* 15,35,55,75 * * *  ACTIVE_POWER_SUM
* 16,36,56,76 * * *  ACTIVE_POWER_DIFF
* 17,37,57,77 * * *  ACTIVE_POWER_QI
* 18,38,58,78 * * *  ACTIVE_POWER_QII
* 19,39,59,79 * * *  ACTIVE_POWER_QIII
* 20,40,60,80 * * *  ACTIVE_POWER_QIV
* 96 1 0-9,255 *     ELECTRICITY_METERING_POINT_ID_OBJECTS
* 96 5 0-5 *         ELECTRICITY_RELATED_STATUS_OBJECTS
* 96 10 0-3 *        ELECTRICITY_RELATED_STATUS_OBJECTS
* 98 * * *           LIST_OBJECTS_ELECTRICITY
* 82,84-89 31-45 0-63 0-99,255 THRESHOLD_VALUES
* 90-92 31-45 0-120,124-127 0-99,255 THRESHOLD_VALUES
* 82,84-89 4,5,14,15,24,25 0-63 0-99,255 REGISTER_MONITOR_OBJECTS
* 90-92,100-107 4,5,14,15,24,25 0-120,124-127 0-99,255 REGISTER_MONITOR_OBJECTS
* 100-107 31,35,39 0-120,124-127 0-99,255 REGISTER_MONITOR_OBJECTS
"""
HCA = """
* 0 0 0-9,255 *      ID_NUMBERS_HCA
* 0 1 1,2,10,11 *    BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES_HCA
* 0 2 0-3 *          GENERAL_PURPOSE_OBJECTS_HCA
* 0 4 0-6 *          GENERAL_PURPOSE_OBJECTS_HCA
* 0 5 10,11 *        GENERAL_PURPOSE_OBJECTS_HCA
* 0 8 0,4,6 *        GENERAL_PURPOSE_OBJECTS_HCA
* 0 9 1-3 *          GENERAL_PURPOSE_OBJECTS_HCA
* 1,2 0,6 0 255      MEASURED_VALUES_HCA_CONSUMPTION
* 1,2 1-5 0 0-99,101-125,255 MEASURED_VALUES_HCA_CONSUMPTION
* 3-7 0,4-6 255 255  MEASURED_VALUES_HCA_TEMPERATURE
* 97 97 * *          ERROR_REGISTER_OBJECTS_HCA
* 98 * * *           LIST_OBJECTS_HCA
* 99 1 * *           DATA_PROFILE_OBJECTS_HCA
"""
THERMAL = """
* 0 0 0-9,255 *      ID_NUMBERS_THERMAL
* 0 1 1,2,10,11 *    BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES_THERMAL
* 0 2 0-4,10-13 *    GENERAL_PURPOSE_OBJECTS_THERMAL
* 0 4 1-3 *          GENERAL_PURPOSE_OBJECTS_THERMAL
* 0 5 1-9,21-24 *    GENERAL_PURPOSE_OBJECTS_THERMAL
* 0 8 0-7,11-14,21-25,31-34 * GENERAL_PURPOSE_OBJECTS_THERMAL
* 0 9 1-3 *          GENERAL_PURPOSE_OBJECTS_THERMAL
* 1-7 0-3,7 0-9 255  MEASURED_VALUES_THERMAL_CONSUMPTION
* 1-7 3,8,9 0-9 0-99,101-125,255 MEASURED_VALUES_THERMAL_CONSUMPTION
* 1-7 1,2,4,5,12-15 0-9 0-99,101-125 MEASURED_VALUES_THERMAL_CONSUMPTION
* 1-7 1,2,4,5,12-15 0-9 100 ?
* 1-7 6 255 255      MEASURED_VALUES_THERMAL_CONSUMPTION
* 1-7 5,15,20-25 0-9 255 MEASURED_VALUES_THERMAL_ENERGY
* 8-13 20-25 0-9 255 MEASURED_VALUES_THERMAL_ENERGY
* 8,9 1,4,5,12-15 0-9 0-99,101-125,255 MEASURED_VALUES_THERMAL_ENERGY
* 10-13 0,6,7,10,11 0-9 255 MEASURED_VALUES_THERMAL_ENERGY
* 10-13 4,5,14,15 0-9 0-99,101-125 MEASURED_VALUES_THERMAL_ENERGY
* 97 97 0-2 *        ERROR_REGISTER_OBJECTS_THERMAL
* 98 * * *           LIST_OBJECTS_THERMAL
* 99 1,2 1-3 255     DATA_PROFILE_OBJECTS_THERMAL
* 99 3 1 255         DATA_PROFILE_OBJECTS_THERMAL
* 99 99 * 255        DATA_PROFILE_OBJECTS_THERMAL
"""
GAS = """
* 0 0 0-9,255 *      ID_NUMBERS_GAS
* 0 1 * *            BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES_GAS
* 0 2-4,6-15 * *     GENERAL_PURPOSE_OBJECTS_GAS
* 96 5 0-9 *         INTERNAL_OPERATING_STATUS_OBJECTS_GAS
* 1-8,11-16,21-26,31-35,61-65 24-26,42-44,63-65,81-83 0-63 0-99,101-126 MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
* 1-8,11-16,21-26,31-35,61-65 6-23,27-32,45-50,66-71,84-89 0-63 255 MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
* 1-8,11-16,21-26,31-35,61-65 33-41,52-62,72-80,90-98 0-63 0-99,101-126,255 MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
* 43 0-2,13,15-30,35-50,55-70 0 255 MEASURED_VALUES_GAS_FLOW_RATE
* 43 31-34,51-54 0 0-99,101-126,255 MEASURED_VALUES_GAS_FLOW_RATE
* 41,42,44-49 0,2,3,10,11,13,15-91 0 255 MEASURED_VALUES_GAS_PROCESS_VALUES
* 51-55 0,2,3,10,11 0,1,11-28 255 CONVERSION_RELATED_FACTORS_AND_COEFFICIENTS_GAS
* 51-55 12 0-19 255  CALCULATION_METHODS_GAS
* 70 8,9 0 255       NATURAL_GAS_ANALYSIS
* 70 10-20,60-84 0,1,11-28 255 NATURAL_GAS_ANALYSIS
* 98 * * *           LIST_OBJECTS_GAS
"""
WATER = """
* 0 0 0-9,255 *      ID_NUMBERS_WATER
* 0 1 1,2,10-12 *    BILLING_PERIOD_VALUES_RESET_COUNTER_ENTRIES_WATER
* 0 2 0,3 *          GENERAL_PURPOSE_OBJECTS_WATER
* 0 5,7 1 *          GENERAL_PURPOSE_OBJECTS_WATER
* 0 8 1,6 *          GENERAL_PURPOSE_OBJECTS_WATER
* 0 9 1-3 *          GENERAL_PURPOSE_OBJECTS_WATER
* 1 0-3,6 0-12 255   MEASURED_VALUES_WATER_CONSUMPTION
* 1 1-5 0-12 0-99,101-125 MEASURED_VALUES_WATER_CONSUMPTION
* 2,3 0-3,6 0-12 255 MEASURED_VALUES_WATER_MONITORING_VALUES
* 2,3 1-5 0-12 0-99,101-125 MEASURED_VALUES_WATER_MONITORING_VALUES
* 97 97 * *          ERROR_REGISTER_OBJECTS_WATER
* 98 * * *           LIST_OBJECTS_WATER
* 99 1 * *           DATA_PROFILE_OBJECTS_WATER
"""


def rows(text):
    out = []
    for line in text.strip().splitlines():
        *c, name = line.split()
        out.append((*map(cells, c), name))
    return out


MEDIA = {0: ("ABSTRACT", rows(ABSTRACT)), 1: ("ELECTRICITY", rows(ELECTRICITY)), 4: ("HCA", rows(HCA)), 5: ("THERMAL", rows(THERMAL)), 6: ("THERMAL", rows(THERMAL)), 7: ("GAS", rows(GAS)),
         8: ("WATER", rows(WATER)), 9: ("WATER", rows(WATER))}


def group(ln, among=None):
    """name of the group of the six octets (only rows `among` looked at); '?' where the tables leave it open"""
    a, *rest = ln
    if a not in MEDIA:
        return "OTHER_MEDIA"
    medium, table = MEDIA[a]
    for *cs, name in table if among is None else among:
        if all(c is None or v in c for c, v in zip(cs, rest)):
            return name
    return medium
