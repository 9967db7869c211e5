// Generated by tools/gen.py from spec/*.json; do not edit.
use crate::spec::*;

pub static ENUMS: &[EnumSpec] = &[
    EnumSpec { name: "GpsFix", open: true, default: "", variants: &[("NoFix", 0), ("DeadReckoningOnly", 1), ("Fix2D", 2), ("Fix3D", 3), ("GPSPlusDeadReckoning", 4), ("TimeOnlyFix", 5)] },
    EnumSpec { name: "NavStatusFlags2", open: true, default: "", variants: &[("Acquisition", 0), ("Tracking", 1), ("PowerOptimizedTracking", 2), ("Inactive", 3)] },
    EnumSpec { name: "OdoProfile", open: false, default: "Running", variants: &[("Running", 0), ("Cycling", 1), ("Swimming", 2), ("Car", 3), ("Custom", 4)] },
    EnumSpec { name: "CfgItfmAntennaSettings", open: false, default: "Unknown", variants: &[("Unknown", 0), ("Active", 1), ("Passive", 2)] },
    EnumSpec { name: "CfgTp5TimePulseMode", open: false, default: "TimePulse", variants: &[("TimePulse", 0), ("TimePulse2", 1)] },
    EnumSpec { name: "CfgTmode2TimeXferModes", open: false, default: "Disabled", variants: &[("Disabled", 0), ("SurveyIn", 1), ("FixedMode", 2)] },
    EnumSpec { name: "I2cPortId", open: false, default: "I2c", variants: &[("I2c", 0)] },
    EnumSpec { name: "UartPortId", open: false, default: "", variants: &[("Uart1", 1), ("Uart2", 2), ("Usb", 3)] },
    EnumSpec { name: "SpiPortId", open: false, default: "Spi", variants: &[("Spi", 4)] },
    EnumSpec { name: "CfgNav5DynModel", open: false, default: "AirborneWith4gAcceleration", variants: &[("Portable", 0), ("Stationary", 2), ("Pedestrian", 3), ("Automotive", 4), ("Sea", 5), ("AirborneWithLess1gAcceleration", 6), ("AirborneWithLess2gAcceleration", 7), ("AirborneWith4gAcceleration", 8), ("WristWornWatch", 9), ("Bike", 10)] },
    EnumSpec { name: "CfgNav5FixMode", open: false, default: "Auto2D3D", variants: &[("Only2D", 1), ("Only3D", 2), ("Auto2D3D", 3)] },
    EnumSpec { name: "CfgNav5UtcStandard", open: false, default: "Automatic", variants: &[("Automatic", 0), ("Usno", 3), ("UtcSu", 6), ("UtcChina", 7)] },
    EnumSpec { name: "MsgAckInfoCode", open: true, default: "", variants: &[("Accepted", 0), ("RejectedNoTime", 1), ("RejectedBadVersion", 2), ("RejectedBadSize", 3), ("RejectedDBStoreFailed", 4), ("RejectedNotReady", 5), ("RejectedUnknownType", 6)] },
    EnumSpec { name: "AntennaStatus", open: true, default: "", variants: &[("Init", 0), ("DontKnow", 1), ("Ok", 2), ("Short", 3), ("Open", 4)] },
    EnumSpec { name: "AntennaPower", open: true, default: "", variants: &[("Off", 0), ("On", 1), ("DontKnow", 2)] },
];

pub static FLAGS: &[FlagsSpec] = &[
    FlagsSpec { name: "NavHpPosEcefFlags", bits: 8, consts: &[("INVALID_ECEF", 0x1)] },
    FlagsSpec { name: "NavPvtFlags", bits: 8, consts: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("HEAD_VEH_VALID", 0x20), ("CARR_SOLN_FLOAT", 0x40), ("CARR_SOLN_FIXED", 0x80)] },
    FlagsSpec { name: "NavPvtFlags2", bits: 8, consts: &[("CONFIRMED_AVAI", 0x20), ("CONFIRMED_DATE", 0x40), ("CONFIRMED_TIME", 0x80)] },
    FlagsSpec { name: "NavStatusFlags", bits: 8, consts: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("WKN_SET", 0x4), ("TOW_SET", 0x8)] },
    FlagsSpec { name: "OdoCogFilterFlags", bits: 8, consts: &[("USE_ODO", 0x1), ("USE_COG", 0x2), ("OUT_LP_VEL", 0x4), ("OUT_LP_COG", 0x8)] },
    FlagsSpec { name: "CfgInfMask", bits: 8, consts: &[("ERROR", 0x1), ("WARNING", 0x2), ("NOTICE", 0x4), ("TEST", 0x8), ("DEBUG", 0x10)] },
    FlagsSpec { name: "AntFlags", bits: 16, consts: &[("SVCS", 0x1), ("SCD", 0x2), ("OCD", 0x4), ("PDWN_ON_SCD", 0x8), ("RECOVERY", 0x10)] },
    FlagsSpec { name: "CfgTmode2Flags", bits: 16, consts: &[("LLA", 0x1), ("ALT_INVALID", 0x2)] },
    FlagsSpec { name: "NavTimeLsFlags", bits: 8, consts: &[("VALID_CURR_LS", 0x1), ("VALID_TIME_TO_LS_EVENT", 0x2)] },
    FlagsSpec { name: "CfgTmode3RcvrMode", bits: 8, consts: &[("DISABLED", 0x1), ("SURVEY_IN", 0x2), ("FIXED_MODE", 0x4)] },
    FlagsSpec { name: "CfgTp5Flags", bits: 32, consts: &[("ACTIVE", 0x1), ("LOCK_GNSS_FREQ", 0x2), ("LOCKED_OTHER_SET", 0x4), ("IS_FREQ", 0x8), ("IS_LENGTH", 0x10), ("ALIGN_TO_TOW", 0x20), ("POLARITY", 0x40), ("UTC_TIME_GRID", 0x80), ("GPS_TIME_GRID", 0x100), ("GLO_TIME_GRID", 0x200), ("BDS_TIME_GRID", 0x400), ("GAL_TIME_GRID", 0x800), ("SYNC_MODE_0", 0x1000), ("SYNC_MODE_1", 0x2000)] },
    FlagsSpec { name: "CfgTmode3Flags", bits: 8, consts: &[("LLA", 0x1)] },
    FlagsSpec { name: "NavBbrMask", bits: 16, consts: &[("EPHEMERIS", 0x1), ("ALMANACH", 0x2), ("HEALTH", 0x4), ("KLOBUCHARD", 0x8), ("POSITION", 0x10), ("CLOCK_DRIFT", 0x20), ("OSCILATOR_PARAMETER", 0x40), ("UTC_CORRECTION_PARAMETERS", 0x80), ("RTC", 0x100), ("SFDR_PARAMETERS", 0x800), ("SFDR_VEHICLE_MONITORING_PARAMETERS", 0x1000), ("TCT_PARAMETERS", 0x2000), ("AUTONOMOUS_ORBIT_PARAMETERS", 0x8000)] },
    FlagsSpec { name: "CfgLayer", bits: 8, consts: &[("RAM", 0x1), ("BBR", 0x2), ("FLASH", 0x4)] },
    FlagsSpec { name: "InProtoMask", bits: 16, consts: &[("UBLOX", 0x1), ("NMEA", 0x2), ("RTCM", 0x4), ("RTCM3", 0x20)] },
    FlagsSpec { name: "OutProtoMask", bits: 16, consts: &[("UBLOX", 0x1), ("NMEA", 0x2), ("RTCM3", 0x20)] },
    FlagsSpec { name: "NavTimeUtcFlags", bits: 8, consts: &[("VALID_TOW", 0x1), ("VALID_WKN", 0x2), ("VALID_UTC", 0x4)] },
    FlagsSpec { name: "CfgNav5Params", bits: 16, consts: &[("DYN", 0x1), ("MIN_EL", 0x2), ("POS_FIX_MODE", 0x4), ("DR_LIM", 0x8), ("POS_MASK_APPLY", 0x10), ("TIME_MASK", 0x20), ("STATIC_HOLD_MASK", 0x40), ("DGPS_MASK", 0x80), ("CNO_THRESHOLD", 0x100), ("UTC", 0x400)] },
    FlagsSpec { name: "CfgNavX5Params1", bits: 16, consts: &[("MIN_MAX", 0x4), ("MIN_CNO", 0x8), ("INITIAL_3D_FIX", 0x40), ("WKN_ROLL", 0x200), ("AID_ACK", 0x400), ("USE_PPP", 0x2000), ("AOP_CFG", 0x4000)] },
    FlagsSpec { name: "CfgNavX5Params2", bits: 32, consts: &[("USE_ADR", 0x40), ("USE_SIG_ATTEN_COMP", 0x80)] },
    FlagsSpec { name: "RecStatFlags", bits: 8, consts: &[("LEAP_SEC", 0x1), ("CLK_RESET", 0x2)] },
    FlagsSpec { name: "MonGnssConstellMask", bits: 8, consts: &[("GPS", 0x1), ("GLO", 0x2), ("BDC", 0x4), ("GAL", 0x8)] },
    FlagsSpec { name: "EsfInsBitFlags", bits: 32, consts: &[("VERSION", 0x1), ("X_ANG_RATE_VALID", 0x100), ("Y_ANG_RATE_VALID", 0x200), ("Z_ANG_RATE_VALID", 0x400), ("X_ACCEL_VALID", 0x800), ("Y_ACCEL_VALID", 0x1000), ("Z_ACCEL_VALID", 0x2000)] },
    FlagsSpec { name: "HnrInsBitFlags", bits: 32, consts: &[("VERSION", 0x1), ("X_ANG_RATE_VALID", 0x100), ("Y_ANG_RATE_VALID", 0x200), ("Z_ANG_RATE_VALID", 0x400), ("X_ACCEL_VALID", 0x800), ("Y_ACCEL_VALID", 0x1000), ("Z_ACCEL_VALID", 0x2000)] },
    FlagsSpec { name: "HnrPvtFlags", bits: 8, consts: &[("GPS_FIX_OK", 0x1), ("DIFF_SOLN", 0x2), ("WKN_SET", 0x4), ("TOW_SET", 0x8), ("HEAD_VEH_VALID", 0x10)] },
    FlagsSpec { name: "HnrPvtValidFlags", bits: 8, consts: &[("VALID_DATE", 0x1), ("VALID_TIME", 0x2), ("FULLY_RESOLVED", 0x4)] },
    FlagsSpec { name: "StdevFlags", bits: 8, consts: &[("STD_1", 0x1), ("STD_2", 0x2), ("STD_3", 0x4), ("STD_4", 0x8)] },
    FlagsSpec { name: "TrkStatFlags", bits: 8, consts: &[("PR_VALID", 0x1), ("CP_VALID", 0x2), ("HALF_CYCLE", 0x4), ("SUB_HALF_CYCLE", 0x8)] },
];

pub static PACKETS: &[PacketSpec] = &[
    PacketSpec { name: "NavPosLlh", class: 0x1, id: 0x2, fixed: Some(28), max: 28, min: 28, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "lon", getter: "lon_degrees", raw_getter: "lon_degrees_raw", ty: Ty::I32, off: 4, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "lat", getter: "lat_degrees", raw_getter: "lat_degrees_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "height_meters", getter: "height_meters", raw_getter: "height_meters_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "height_msl", getter: "height_msl", raw_getter: "height_msl_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "h_ack", getter: "h_ack", raw_getter: "h_ack_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "v_acc", getter: "v_acc", raw_getter: "v_acc_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
    ] },
    PacketSpec { name: "NavVelNed", class: 0x1, id: 0x12, fixed: Some(36), max: 36, min: 36, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "vel_north", getter: "vel_north", raw_getter: "vel_north_raw", ty: Ty::I32, off: 4, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "vel_east", getter: "vel_east", raw_getter: "vel_east_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "vel_down", getter: "vel_down", raw_getter: "vel_down_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "speed_3d", getter: "speed_3d", raw_getter: "speed_3d_raw", ty: Ty::U32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ground_speed", getter: "ground_speed", raw_getter: "ground_speed_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "heading", getter: "heading_degrees", raw_getter: "heading_degrees_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", raw_getter: "speed_accuracy_estimate_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "course_heading_accuracy_estimate", getter: "course_heading_accuracy_estimate", raw_getter: "course_heading_accuracy_estimate_raw", ty: Ty::U32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
    ] },
    PacketSpec { name: "NavHpPosLlh", class: 0x1, id: 0x14, fixed: Some(36), max: 36, min: 36, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "lon", getter: "lon_degrees", raw_getter: "lon_degrees_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "lat", getter: "lat_degrees", raw_getter: "lat_degrees_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "height_meters", getter: "height_meters", raw_getter: "height_meters_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "height_msl", getter: "height_msl", raw_getter: "height_msl_raw", ty: Ty::I32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "lon_hp", getter: "lon_hp_degrees", raw_getter: "lon_hp_degrees_raw", ty: Ty::I8, off: 24, size: 1, conv: Conv::Scaled { f32: false, scale: 1e-09 }, checked: false },
        Field { name: "lat_hp", getter: "lat_hp_degrees", raw_getter: "lat_hp_degrees_raw", ty: Ty::I8, off: 25, size: 1, conv: Conv::Scaled { f32: false, scale: 1e-09 }, checked: false },
        Field { name: "height_hp_meters", getter: "height_hp_meters", raw_getter: "height_hp_meters_raw", ty: Ty::I8, off: 26, size: 1, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "height_hp_msl", getter: "height_hp_msl", raw_getter: "height_hp_msl_raw", ty: Ty::I8, off: 27, size: 1, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "horizontal_accuracy", getter: "horizontal_accuracy", raw_getter: "horizontal_accuracy_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "vertical_accuracy", getter: "vertical_accuracy", raw_getter: "vertical_accuracy_raw", ty: Ty::U32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
    ] },
    PacketSpec { name: "NavHpPosEcef", class: 0x1, id: 0x13, fixed: Some(28), max: 28, min: 28, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_x", getter: "ecef_x_cm", raw_getter: "ecef_x_cm_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "ecef_y", getter: "ecef_y_cm", raw_getter: "ecef_y_cm_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "ecef_z", getter: "ecef_z_cm", raw_getter: "ecef_z_cm_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "ecef_x_hp", getter: "ecef_x_hp_mm", raw_getter: "ecef_x_hp_mm_raw", ty: Ty::I8, off: 20, size: 1, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "ecef_y_hp", getter: "ecef_y_hp_mm", raw_getter: "ecef_y_hp_mm_raw", ty: Ty::I8, off: 21, size: 1, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "ecef_z_hp", getter: "ecef_z_hp_mm", raw_getter: "ecef_z_hp_mm_raw", ty: Ty::I8, off: 22, size: 1, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 23, size: 1, conv: Conv::Flags(0), checked: false },
        Field { name: "p_acc", getter: "p_acc", raw_getter: "p_acc_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.1 }, checked: false },
    ] },
    PacketSpec { name: "NavPvt", class: 0x1, id: 0x7, fixed: Some(92), max: 92, min: 92, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "year", getter: "year", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "month", getter: "month", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "day", getter: "day", raw_getter: "", ty: Ty::U8, off: 7, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "hour", getter: "hour", raw_getter: "", ty: Ty::U8, off: 8, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "min", getter: "min", raw_getter: "", ty: Ty::U8, off: 9, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sec", getter: "sec", raw_getter: "", ty: Ty::U8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "valid", getter: "valid", raw_getter: "", ty: Ty::U8, off: 11, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "time_accuracy", getter: "time_accuracy", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "nanosecond", getter: "nanosecond", raw_getter: "", ty: Ty::I32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "fix_type", getter: "fix_type", raw_getter: "fix_type_raw", ty: Ty::U8, off: 20, size: 1, conv: Conv::Enum(0), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 21, size: 1, conv: Conv::Flags(1), checked: false },
        Field { name: "flags2", getter: "flags2", raw_getter: "flags2_raw", ty: Ty::U8, off: 22, size: 1, conv: Conv::Flags(2), checked: false },
        Field { name: "num_satellites", getter: "num_satellites", raw_getter: "", ty: Ty::U8, off: 23, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "lon", getter: "lon_degrees", raw_getter: "lon_degrees_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "lat", getter: "lat_degrees", raw_getter: "lat_degrees_raw", ty: Ty::I32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "height_meters", getter: "height_meters", raw_getter: "height_meters_raw", ty: Ty::I32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "height_msl", getter: "height_msl", raw_getter: "height_msl_raw", ty: Ty::I32, off: 36, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "horiz_accuracy", getter: "horiz_accuracy", raw_getter: "", ty: Ty::U32, off: 40, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "vert_accuracy", getter: "vert_accuracy", raw_getter: "", ty: Ty::U32, off: 44, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "vel_north", getter: "vel_north", raw_getter: "vel_north_raw", ty: Ty::I32, off: 48, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "vel_east", getter: "vel_east", raw_getter: "vel_east_raw", ty: Ty::I32, off: 52, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "vel_down", getter: "vel_down", raw_getter: "vel_down_raw", ty: Ty::I32, off: 56, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "ground_speed", getter: "ground_speed", raw_getter: "ground_speed_raw", ty: Ty::U32, off: 60, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "heading", getter: "heading_degrees", raw_getter: "heading_degrees_raw", ty: Ty::I32, off: 64, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", raw_getter: "speed_accuracy_estimate_raw", ty: Ty::U32, off: 68, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "heading_accuracy_estimate", getter: "heading_accuracy_estimate", raw_getter: "heading_accuracy_estimate_raw", ty: Ty::U32, off: 72, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "pdop", getter: "pdop", raw_getter: "", ty: Ty::U16, off: 76, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(6), off: 78, size: 6, conv: Conv::Plain, checked: false },
        Field { name: "heading_of_vehicle", getter: "heading_of_vehicle_degrees", raw_getter: "heading_of_vehicle_degrees_raw", ty: Ty::I32, off: 84, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "magnetic_declination", getter: "magnetic_declination_degrees", raw_getter: "magnetic_declination_degrees_raw", ty: Ty::I16, off: 88, size: 2, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "magnetic_declination_accuracy", getter: "magnetic_declination_accuracy_degrees", raw_getter: "magnetic_declination_accuracy_degrees_raw", ty: Ty::U16, off: 90, size: 2, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
    ] },
    PacketSpec { name: "NavStatus", class: 0x1, id: 0x3, fixed: Some(16), max: 16, min: 16, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "fix_type", getter: "fix_type", raw_getter: "fix_type_raw", ty: Ty::U8, off: 4, size: 1, conv: Conv::Enum(0), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 5, size: 1, conv: Conv::Flags(3), checked: false },
        Field { name: "fix_stat", getter: "fix_stat", raw_getter: "fix_stat_raw", ty: Ty::U8, off: 6, size: 1, conv: Conv::Custom("FixStatusInfo"), checked: false },
        Field { name: "flags2", getter: "flags2", raw_getter: "flags2_raw", ty: Ty::U8, off: 7, size: 1, conv: Conv::Enum(1), checked: false },
        Field { name: "time_to_first_fix", getter: "time_to_first_fix", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "uptime_ms", getter: "uptime_ms", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavDop", class: 0x1, id: 0x4, fixed: Some(18), max: 18, min: 18, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "geometric_dop", getter: "geometric_dop", raw_getter: "geometric_dop_raw", ty: Ty::U16, off: 4, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "position_dop", getter: "position_dop", raw_getter: "position_dop_raw", ty: Ty::U16, off: 6, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "time_dop", getter: "time_dop", raw_getter: "time_dop_raw", ty: Ty::U16, off: 8, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "vertical_dop", getter: "vertical_dop", raw_getter: "vertical_dop_raw", ty: Ty::U16, off: 10, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "horizontal_dop", getter: "horizontal_dop", raw_getter: "horizontal_dop_raw", ty: Ty::U16, off: 12, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "northing_dop", getter: "northing_dop", raw_getter: "northing_dop_raw", ty: Ty::U16, off: 14, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "easting_dop", getter: "easting_dop", raw_getter: "easting_dop_raw", ty: Ty::U16, off: 16, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
    ] },
    PacketSpec { name: "NavEoe", class: 0x1, id: 0x61, fixed: Some(4), max: 4, min: 4, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavSolution", class: 0x1, id: 0x6, fixed: Some(52), max: 52, min: 52, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ftow_ns", getter: "ftow_ns", raw_getter: "", ty: Ty::I32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "week", getter: "week", raw_getter: "", ty: Ty::I16, off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "fix_type", getter: "fix_type", raw_getter: "fix_type_raw", ty: Ty::U8, off: 10, size: 1, conv: Conv::Enum(0), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 11, size: 1, conv: Conv::Flags(3), checked: false },
        Field { name: "ecef_x", getter: "ecef_x", raw_getter: "ecef_x_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_y", getter: "ecef_y", raw_getter: "ecef_y_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_z", getter: "ecef_z", raw_getter: "ecef_z_raw", ty: Ty::I32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "position_accuracy_estimate", getter: "position_accuracy_estimate", raw_getter: "position_accuracy_estimate_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_vx", getter: "ecef_vx", raw_getter: "ecef_vx_raw", ty: Ty::I32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_vy", getter: "ecef_vy", raw_getter: "ecef_vy_raw", ty: Ty::I32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_vz", getter: "ecef_vz", raw_getter: "ecef_vz_raw", ty: Ty::I32, off: 36, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "speed_accuracy_estimate", getter: "speed_accuracy_estimate", raw_getter: "speed_accuracy_estimate_raw", ty: Ty::U32, off: 40, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "pdop", getter: "pdop", raw_getter: "pdop_raw", ty: Ty::U16, off: 44, size: 2, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 46, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "num_sv", getter: "num_sv", raw_getter: "", ty: Ty::U8, off: 47, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(4), off: 48, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavSatSvInfo", class: 0x1, id: 0x35, fixed: Some(12), max: 12, min: 12, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "gnss_id", getter: "gnss_id", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "cno", getter: "cno", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "elev", getter: "elev", raw_getter: "", ty: Ty::I8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "azim", getter: "azim", raw_getter: "", ty: Ty::I16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "pr_res", getter: "pr_res", raw_getter: "", ty: Ty::I16, off: 6, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U32, off: 8, size: 4, conv: Conv::Custom("NavSatSvFlags"), checked: false },
    ] },
    PacketSpec { name: "NavSat", class: 0x1, id: 0x35, fixed: None, max: 1240, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "num_svs", getter: "num_svs", raw_getter: "", ty: Ty::U8, off: 5, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(2), off: 6, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "svs", getter: "svs", raw_getter: "", ty: Ty::Var, off: 8, size: 0, conv: Conv::Custom("NavSatIter"), checked: true },
    ] },
    PacketSpec { name: "NavOdo", class: 0x1, id: 0x9, fixed: Some(20), max: 20, min: 20, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "distance", getter: "distance", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "total_distance", getter: "total_distance", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "distance_std", getter: "distance_std", raw_getter: "", ty: Ty::U32, off: 16, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavResetOdo", class: 0x1, id: 0x10, fixed: Some(0), max: 0, min: 0, recv: false, send: true, default_builder: false, fields: &[
    ] },
    PacketSpec { name: "CfgOdo", class: 0x6, id: 0x1e, fixed: Some(20), max: 20, min: 20, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 4, size: 1, conv: Conv::Flags(4), checked: false },
        Field { name: "odo_cfg", getter: "odo_cfg", raw_getter: "odo_cfg_raw", ty: Ty::U8, off: 5, size: 1, conv: Conv::Enum(2), checked: true },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(6), off: 6, size: 6, conv: Conv::Plain, checked: false },
        Field { name: "cog_max_speed", getter: "cog_max_speed", raw_getter: "", ty: Ty::U8, off: 12, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "cog_max_pos_acc", getter: "cog_max_pos_acc", raw_getter: "", ty: Ty::U8, off: 13, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::Arr(2), off: 14, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "vel_lp_gain", getter: "vel_lp_gain", raw_getter: "", ty: Ty::U8, off: 16, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "cog_lp_gain", getter: "cog_lp_gain", raw_getter: "", ty: Ty::U8, off: 17, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved4", getter: "reserved4", raw_getter: "", ty: Ty::Arr(2), off: 18, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgItfm", class: 0x6, id: 0x39, fixed: Some(8), max: 8, min: 8, recv: true, send: true, default_builder: false, fields: &[
        Field { name: "config", getter: "config", raw_getter: "config_raw", ty: Ty::U32, off: 0, size: 4, conv: Conv::Custom("CfgItfmConfig"), checked: false },
        Field { name: "config2", getter: "config2", raw_getter: "config2_raw", ty: Ty::U32, off: 4, size: 4, conv: Conv::Custom("CfgItfmConfig2"), checked: false },
    ] },
    PacketSpec { name: "CfgInf", class: 0x6, id: 0x2, fixed: Some(10), max: 10, min: 10, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "protocol_id", getter: "protocol_id", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "inf_msg_mask_0", getter: "inf_msg_mask_0", raw_getter: "inf_msg_mask_0_raw", ty: Ty::U8, off: 4, size: 1, conv: Conv::Flags(5), checked: false },
        Field { name: "inf_msg_mask_1", getter: "inf_msg_mask_1", raw_getter: "inf_msg_mask_1_raw", ty: Ty::U8, off: 5, size: 1, conv: Conv::Flags(5), checked: false },
        Field { name: "inf_msg_mask_2", getter: "inf_msg_mask_2", raw_getter: "inf_msg_mask_2_raw", ty: Ty::U8, off: 6, size: 1, conv: Conv::Flags(5), checked: false },
        Field { name: "inf_msg_mask_3", getter: "inf_msg_mask_3", raw_getter: "inf_msg_mask_3_raw", ty: Ty::U8, off: 7, size: 1, conv: Conv::Flags(5), checked: false },
        Field { name: "inf_msg_mask_4", getter: "inf_msg_mask_4", raw_getter: "inf_msg_mask_4_raw", ty: Ty::U8, off: 8, size: 1, conv: Conv::Flags(5), checked: false },
        Field { name: "inf_msg_mask_5", getter: "inf_msg_mask_5", raw_getter: "inf_msg_mask_5_raw", ty: Ty::U8, off: 9, size: 1, conv: Conv::Flags(5), checked: false },
    ] },
    PacketSpec { name: "InfError", class: 0x4, id: 0x0, fixed: None, max: 1240, min: 0, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "message", getter: "message", raw_getter: "", ty: Ty::Var, off: 0, size: 0, conv: Conv::Custom("Option<&str>"), checked: true },
    ] },
    PacketSpec { name: "InfNotice", class: 0x4, id: 0x2, fixed: None, max: 1240, min: 0, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "message", getter: "message", raw_getter: "", ty: Ty::Var, off: 0, size: 0, conv: Conv::Custom("Option<&str>"), checked: true },
    ] },
    PacketSpec { name: "InfTest", class: 0x4, id: 0x3, fixed: None, max: 1240, min: 0, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "message", getter: "message", raw_getter: "", ty: Ty::Var, off: 0, size: 0, conv: Conv::Custom("Option<&str>"), checked: true },
    ] },
    PacketSpec { name: "InfWarning", class: 0x4, id: 0x1, fixed: None, max: 1240, min: 0, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "message", getter: "message", raw_getter: "", ty: Ty::Var, off: 0, size: 0, conv: Conv::Custom("Option<&str>"), checked: true },
    ] },
    PacketSpec { name: "InfDebug", class: 0x4, id: 0x4, fixed: None, max: 1240, min: 0, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "message", getter: "message", raw_getter: "", ty: Ty::Var, off: 0, size: 0, conv: Conv::Custom("Option<&str>"), checked: true },
    ] },
    PacketSpec { name: "AidIni", class: 0xb, id: 0x1, fixed: Some(48), max: 48, min: 48, recv: false, send: true, default_builder: true, fields: &[
        Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", raw_getter: "", ty: Ty::I32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", raw_getter: "", ty: Ty::I32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pos_accuracy", getter: "pos_accuracy", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "time_cfg", getter: "time_cfg", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "week_or_ym", getter: "week_or_ym", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "tow_or_hms", getter: "tow_or_hms", raw_getter: "", ty: Ty::U32, off: 20, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tow_ns", getter: "tow_ns", raw_getter: "", ty: Ty::I32, off: 24, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tm_accuracy_ms", getter: "tm_accuracy_ms", raw_getter: "", ty: Ty::U32, off: 28, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tm_accuracy_ns", getter: "tm_accuracy_ns", raw_getter: "", ty: Ty::U32, off: 32, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "clk_drift_or_freq", getter: "clk_drift_or_freq", raw_getter: "", ty: Ty::I32, off: 36, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "clk_drift_or_freq_accuracy", getter: "clk_drift_or_freq_accuracy", raw_getter: "", ty: Ty::U32, off: 40, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U32, off: 44, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "AlpSrv", class: 0xb, id: 0x32, fixed: Some(16), max: 16, min: 16, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "id_size", getter: "id_size", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "data_type", getter: "data_type", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "offset", getter: "offset", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "size", getter: "size", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "file_id", getter: "file_id", raw_getter: "", ty: Ty::U16, off: 6, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "data_size", getter: "data_size", raw_getter: "", ty: Ty::U16, off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "id1", getter: "id1", raw_getter: "", ty: Ty::U8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "id2", getter: "id2", raw_getter: "", ty: Ty::U8, off: 11, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "id3", getter: "id3", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "AckAck", class: 0x5, id: 0x1, fixed: Some(2), max: 2, min: 2, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "class", getter: "class", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "msg_id", getter: "msg_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "AckNak", class: 0x5, id: 0x0, fixed: Some(2), max: 2, min: 2, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "class", getter: "class", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "msg_id", getter: "msg_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgRst", class: 0x6, id: 0x4, fixed: Some(4), max: 4, min: 4, recv: false, send: true, default_builder: false, fields: &[
        Field { name: "nav_bbr_mask", getter: "nav_bbr_mask", raw_getter: "nav_bbr_mask_raw", ty: Ty::U16, off: 0, size: 2, conv: Conv::Flags(12), checked: false },
        Field { name: "reset_mode", getter: "reset_mode", raw_getter: "reset_mode_raw", ty: Ty::U8, off: 2, size: 1, conv: Conv::Custom("ResetMode"), checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgAnt", class: 0x6, id: 0x13, fixed: Some(4), max: 4, min: 4, recv: true, send: true, default_builder: false, fields: &[
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U16, off: 0, size: 2, conv: Conv::Flags(6), checked: false },
        Field { name: "pins", getter: "pins", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgTp5", class: 0x6, id: 0x31, fixed: Some(32), max: 32, min: 32, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "tp_idx", getter: "tp_idx", raw_getter: "tp_idx_raw", ty: Ty::U8, off: 0, size: 1, conv: Conv::Enum(4), checked: true },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "ant_cable_delay", getter: "ant_cable_delay", raw_getter: "ant_cable_delay_raw", ty: Ty::I16, off: 4, size: 2, conv: Conv::Scaled { f32: true, scale: 1.0 }, checked: false },
        Field { name: "rf_group_delay", getter: "rf_group_delay", raw_getter: "rf_group_delay_raw", ty: Ty::I16, off: 6, size: 2, conv: Conv::Scaled { f32: true, scale: 1.0 }, checked: false },
        Field { name: "freq_period", getter: "freq_period", raw_getter: "freq_period_raw", ty: Ty::U32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "freq_period_lock", getter: "freq_period_lock", raw_getter: "freq_period_lock_raw", ty: Ty::U32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "pulse_len_ratio", getter: "pulse_len_ratio", raw_getter: "pulse_len_ratio_raw", ty: Ty::U32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "pulse_len_ratio_lock", getter: "pulse_len_ratio_lock", raw_getter: "pulse_len_ratio_lock_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "user_delay", getter: "user_delay", raw_getter: "user_delay_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1.0 }, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Flags(10), checked: false },
    ] },
    PacketSpec { name: "CfgTmode2", class: 0x6, id: 0x3d, fixed: Some(28), max: 28, min: 28, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "time_transfer_mode", getter: "time_transfer_mode", raw_getter: "time_transfer_mode_raw", ty: Ty::U8, off: 0, size: 1, conv: Conv::Enum(5), checked: true },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U16, off: 2, size: 2, conv: Conv::Flags(7), checked: false },
        Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", raw_getter: "ecef_x_or_lat_raw", ty: Ty::I32, off: 4, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", raw_getter: "ecef_y_or_lon_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", raw_getter: "ecef_z_or_alt_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "fixed_pos_acc", getter: "fixed_pos_acc", raw_getter: "fixed_pos_acc_raw", ty: Ty::U32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "survey_in_min_duration", getter: "survey_in_min_duration", raw_getter: "", ty: Ty::U32, off: 20, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "survery_in_accur_limit", getter: "survery_in_accur_limit", raw_getter: "survery_in_accur_limit_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
    ] },
    PacketSpec { name: "TimSvin", class: 0xd, id: 0x4, fixed: Some(28), max: 28, min: 28, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "dur", getter: "dur", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "mean_x", getter: "mean_x", raw_getter: "", ty: Ty::I32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "mean_y", getter: "mean_y", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "mean_z", getter: "mean_z", raw_getter: "", ty: Ty::I32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "mean_v", getter: "mean_v", raw_getter: "", ty: Ty::I32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "obs", getter: "obs", raw_getter: "", ty: Ty::U32, off: 20, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "valid", getter: "valid", raw_getter: "", ty: Ty::U8, off: 24, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "active", getter: "active", raw_getter: "", ty: Ty::U8, off: 25, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(2), off: 26, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavTimeLs", class: 0x1, id: 0x26, fixed: Some(24), max: 24, min: 24, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved_1", getter: "reserved_1", raw_getter: "", ty: Ty::Arr(3), off: 5, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "src_of_curr_ls", getter: "src_of_curr_ls", raw_getter: "", ty: Ty::U8, off: 8, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "current_ls", getter: "current_ls", raw_getter: "", ty: Ty::I8, off: 9, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "src_of_ls_change", getter: "src_of_ls_change", raw_getter: "", ty: Ty::U8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ls_change", getter: "ls_change", raw_getter: "", ty: Ty::I8, off: 11, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "time_to_ls_event", getter: "time_to_ls_event", raw_getter: "", ty: Ty::I32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "date_of_ls_gps_wn", getter: "date_of_ls_gps_wn", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "date_of_ls_gps_dn", getter: "date_of_ls_gps_dn", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved_2", getter: "reserved_2", raw_getter: "", ty: Ty::Arr(3), off: 20, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "valid", getter: "valid", raw_getter: "valid_raw", ty: Ty::U8, off: 23, size: 1, conv: Conv::Flags(8), checked: false },
    ] },
    PacketSpec { name: "CfgTmode3", class: 0x6, id: 0x71, fixed: Some(40), max: 40, min: 40, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "rcvr_mode", getter: "rcvr_mode", raw_getter: "rcvr_mode_raw", ty: Ty::U8, off: 2, size: 1, conv: Conv::Flags(9), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 3, size: 1, conv: Conv::Flags(11), checked: false },
        Field { name: "ecef_x_or_lat", getter: "ecef_x_or_lat", raw_getter: "ecef_x_or_lat_raw", ty: Ty::I32, off: 4, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_y_or_lon", getter: "ecef_y_or_lon", raw_getter: "ecef_y_or_lon_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_z_or_alt", getter: "ecef_z_or_alt", raw_getter: "ecef_z_or_alt_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "ecef_x_or_lat_hp", getter: "ecef_x_or_lat_hp", raw_getter: "ecef_x_or_lat_hp_raw", ty: Ty::I8, off: 16, size: 1, conv: Conv::Scaled { f32: true, scale: 1.0 }, checked: false },
        Field { name: "ecef_y_or_lon_hp", getter: "ecef_y_or_lon_hp", raw_getter: "ecef_y_or_lon_hp_raw", ty: Ty::I8, off: 17, size: 1, conv: Conv::Scaled { f32: true, scale: 1.0 }, checked: false },
        Field { name: "ecef_z_or_alt_hp", getter: "ecef_z_or_alt_hp", raw_getter: "ecef_z_or_alt_hp_raw", ty: Ty::I8, off: 18, size: 1, conv: Conv::Scaled { f32: true, scale: 1.0 }, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 19, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "fixed_pos_acc", getter: "fixed_pos_acc", raw_getter: "fixed_pos_acc_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.0001 }, checked: false },
        Field { name: "sv_in_min_duration", getter: "sv_in_min_duration", raw_getter: "", ty: Ty::U32, off: 24, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "sv_in_accur_limit", getter: "sv_in_accur_limit", raw_getter: "sv_in_accur_limit_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.0001 }, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::Arr(8), off: 32, size: 8, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgValSet", class: 0x6, id: 0x8a, fixed: None, max: 772, min: 4, recv: false, send: true, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "layers", getter: "layers", raw_getter: "layers_raw", ty: Ty::U8, off: 1, size: 1, conv: Conv::Flags(13), checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "cfg_data", getter: "cfg_data", raw_getter: "", ty: Ty::Var, off: 4, size: 0, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgPrtI2c", class: 0x6, id: 0x0, fixed: Some(20), max: 20, min: 20, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "portid", getter: "portid", raw_getter: "portid_raw", ty: Ty::U8, off: 0, size: 1, conv: Conv::Enum(6), checked: true },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tx_ready", getter: "tx_ready", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "mode", getter: "mode", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "in_proto_mask", getter: "in_proto_mask", raw_getter: "in_proto_mask_raw", ty: Ty::U16, off: 12, size: 2, conv: Conv::Flags(14), checked: false },
        Field { name: "out_proto_mask", getter: "out_proto_mask", raw_getter: "out_proto_mask_raw", ty: Ty::U16, off: 14, size: 2, conv: Conv::Flags(15), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgPrtUart", class: 0x6, id: 0x0, fixed: Some(20), max: 20, min: 20, recv: true, send: true, default_builder: false, fields: &[
        Field { name: "portid", getter: "portid", raw_getter: "portid_raw", ty: Ty::U8, off: 0, size: 1, conv: Conv::Enum(7), checked: true },
        Field { name: "reserved0", getter: "reserved0", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tx_ready", getter: "tx_ready", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "mode", getter: "mode", raw_getter: "mode_raw", ty: Ty::U32, off: 4, size: 4, conv: Conv::Custom("UartMode"), checked: false },
        Field { name: "baud_rate", getter: "baud_rate", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "in_proto_mask", getter: "in_proto_mask", raw_getter: "in_proto_mask_raw", ty: Ty::U16, off: 12, size: 2, conv: Conv::Flags(14), checked: false },
        Field { name: "out_proto_mask", getter: "out_proto_mask", raw_getter: "out_proto_mask_raw", ty: Ty::U16, off: 14, size: 2, conv: Conv::Flags(15), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved5", getter: "reserved5", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgPrtSpi", class: 0x6, id: 0x0, fixed: Some(20), max: 20, min: 20, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "portid", getter: "portid", raw_getter: "portid_raw", ty: Ty::U8, off: 0, size: 1, conv: Conv::Enum(8), checked: true },
        Field { name: "reserved0", getter: "reserved0", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tx_ready", getter: "tx_ready", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "mode", getter: "mode", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "in_proto_mask", getter: "in_proto_mask", raw_getter: "in_proto_mask_raw", ty: Ty::U16, off: 12, size: 2, conv: Conv::Flags(14), checked: false },
        Field { name: "out_proto_mask", getter: "out_proto_mask", raw_getter: "out_proto_mask_raw", ty: Ty::U16, off: 14, size: 2, conv: Conv::Flags(15), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved5", getter: "reserved5", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavTimeUTC", class: 0x1, id: 0x21, fixed: Some(20), max: 20, min: 20, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "time_accuracy_estimate_ns", getter: "time_accuracy_estimate_ns", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "nanos", getter: "nanos", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "year", getter: "year", raw_getter: "", ty: Ty::U16, off: 12, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "month", getter: "month", raw_getter: "", ty: Ty::U8, off: 14, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "day", getter: "day", raw_getter: "", ty: Ty::U8, off: 15, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "hour", getter: "hour", raw_getter: "", ty: Ty::U8, off: 16, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "min", getter: "min", raw_getter: "", ty: Ty::U8, off: 17, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sec", getter: "sec", raw_getter: "", ty: Ty::U8, off: 18, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "valid", getter: "valid", raw_getter: "valid_raw", ty: Ty::U8, off: 19, size: 1, conv: Conv::Flags(16), checked: false },
    ] },
    PacketSpec { name: "CfgRate", class: 0x6, id: 0x8, fixed: Some(6), max: 6, min: 6, recv: false, send: true, default_builder: false, fields: &[
        Field { name: "measure_rate_ms", getter: "measure_rate_ms", raw_getter: "", ty: Ty::U16, off: 0, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "nav_rate", getter: "nav_rate", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "time_ref", getter: "time_ref", raw_getter: "time_ref_raw", ty: Ty::U16, off: 4, size: 2, conv: Conv::Custom("AlignmentToReferenceTime"), checked: false },
    ] },
    PacketSpec { name: "CfgMsgSinglePort", class: 0x6, id: 0x1, fixed: Some(3), max: 3, min: 3, recv: false, send: true, default_builder: false, fields: &[
        Field { name: "msg_class", getter: "msg_class", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "msg_id", getter: "msg_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "rate", getter: "rate", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgMsgAllPorts", class: 0x6, id: 0x1, fixed: Some(8), max: 8, min: 8, recv: false, send: true, default_builder: false, fields: &[
        Field { name: "msg_class", getter: "msg_class", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "msg_id", getter: "msg_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "rates", getter: "rates", raw_getter: "", ty: Ty::Arr(6), off: 2, size: 6, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgNav5", class: 0x6, id: 0x24, fixed: Some(36), max: 36, min: 36, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "mask", getter: "mask", raw_getter: "mask_raw", ty: Ty::U16, off: 0, size: 2, conv: Conv::Flags(17), checked: false },
        Field { name: "dyn_model", getter: "dyn_model", raw_getter: "dyn_model_raw", ty: Ty::U8, off: 2, size: 1, conv: Conv::Enum(9), checked: true },
        Field { name: "fix_mode", getter: "fix_mode", raw_getter: "fix_mode_raw", ty: Ty::U8, off: 3, size: 1, conv: Conv::Enum(10), checked: true },
        Field { name: "fixed_alt", getter: "fixed_alt", raw_getter: "fixed_alt_raw", ty: Ty::I32, off: 4, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "fixed_alt_var", getter: "fixed_alt_var", raw_getter: "fixed_alt_var_raw", ty: Ty::U32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 0.0001 }, checked: false },
        Field { name: "min_elev_degrees", getter: "min_elev_degrees", raw_getter: "", ty: Ty::I8, off: 12, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "dr_limit", getter: "dr_limit", raw_getter: "", ty: Ty::U8, off: 13, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "pdop", getter: "pdop", raw_getter: "pdop_raw", ty: Ty::U16, off: 14, size: 2, conv: Conv::Scaled { f32: true, scale: 0.1 }, checked: false },
        Field { name: "tdop", getter: "tdop", raw_getter: "tdop_raw", ty: Ty::U16, off: 16, size: 2, conv: Conv::Scaled { f32: true, scale: 0.1 }, checked: false },
        Field { name: "pacc", getter: "pacc", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "tacc", getter: "tacc", raw_getter: "", ty: Ty::U16, off: 20, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "static_hold_thresh", getter: "static_hold_thresh", raw_getter: "static_hold_thresh_raw", ty: Ty::U8, off: 22, size: 1, conv: Conv::Scaled { f32: true, scale: 0.01 }, checked: false },
        Field { name: "dgps_time_out", getter: "dgps_time_out", raw_getter: "", ty: Ty::U8, off: 23, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "cno_thresh_num_svs", getter: "cno_thresh_num_svs", raw_getter: "", ty: Ty::U8, off: 24, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "cno_thresh", getter: "cno_thresh", raw_getter: "", ty: Ty::U8, off: 25, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 26, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "static_hold_max_dist", getter: "static_hold_max_dist", raw_getter: "", ty: Ty::U16, off: 28, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "utc_standard", getter: "utc_standard", raw_getter: "utc_standard_raw", ty: Ty::U8, off: 30, size: 1, conv: Conv::Enum(11), checked: true },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(5), off: 31, size: 5, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "CfgNavX5", class: 0x6, id: 0x23, fixed: Some(40), max: 40, min: 40, recv: true, send: true, default_builder: true, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U16, off: 0, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "mask1", getter: "mask1", raw_getter: "mask1_raw", ty: Ty::U16, off: 2, size: 2, conv: Conv::Flags(18), checked: false },
        Field { name: "mask2", getter: "mask2", raw_getter: "mask2_raw", ty: Ty::U32, off: 4, size: 4, conv: Conv::Flags(19), checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "min_svs", getter: "min_svs", raw_getter: "", ty: Ty::U8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "max_svs", getter: "max_svs", raw_getter: "", ty: Ty::U8, off: 11, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "min_cno_dbhz", getter: "min_cno_dbhz", raw_getter: "", ty: Ty::U8, off: 12, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 13, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ini_fix_3d", getter: "ini_fix_3d", raw_getter: "", ty: Ty::U8, off: 14, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::Arr(2), off: 15, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "ack_aiding", getter: "ack_aiding", raw_getter: "", ty: Ty::U8, off: 17, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "wkn_rollover", getter: "wkn_rollover", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "sig_atten_comp_mode", getter: "sig_atten_comp_mode", raw_getter: "", ty: Ty::U8, off: 20, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved4", getter: "reserved4", raw_getter: "", ty: Ty::U8, off: 21, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved5", getter: "reserved5", raw_getter: "", ty: Ty::Arr(2), off: 22, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved6", getter: "reserved6", raw_getter: "", ty: Ty::Arr(2), off: 24, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "use_ppp", getter: "use_ppp", raw_getter: "", ty: Ty::U8, off: 26, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "aop_cfg", getter: "aop_cfg", raw_getter: "", ty: Ty::U8, off: 27, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved7", getter: "reserved7", raw_getter: "", ty: Ty::Arr(2), off: 28, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "aop_orb_max_err", getter: "aop_orb_max_err", raw_getter: "", ty: Ty::U16, off: 30, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved8", getter: "reserved8", raw_getter: "", ty: Ty::Arr(4), off: 32, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "reserved9", getter: "reserved9", raw_getter: "", ty: Ty::Arr(3), off: 36, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "use_adr", getter: "use_adr", raw_getter: "", ty: Ty::U8, off: 39, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MgaAck", class: 0x13, id: 0x60, fixed: Some(8), max: 8, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "ack_type", getter: "ack_type", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "info_code", getter: "info_code", raw_getter: "info_code_raw", ty: Ty::U8, off: 2, size: 1, conv: Conv::Enum(12), checked: false },
        Field { name: "msg_id", getter: "msg_id", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "msg_payload_start", getter: "msg_payload_start", raw_getter: "", ty: Ty::Arr(4), off: 4, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MgaGloEph", class: 0x13, id: 0x6, fixed: Some(48), max: 48, min: 48, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "msg_type", getter: "msg_type", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ft", getter: "ft", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "b", getter: "b", raw_getter: "", ty: Ty::U8, off: 5, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "m", getter: "m", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "h", getter: "h", raw_getter: "", ty: Ty::I8, off: 7, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "x", getter: "x", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "y", getter: "y", raw_getter: "", ty: Ty::I32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "z", getter: "z", raw_getter: "", ty: Ty::I32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "dx", getter: "dx", raw_getter: "", ty: Ty::I32, off: 20, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "dy", getter: "dy", raw_getter: "", ty: Ty::I32, off: 24, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "dz", getter: "dz", raw_getter: "", ty: Ty::I32, off: 28, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ddx", getter: "ddx", raw_getter: "", ty: Ty::I8, off: 32, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ddy", getter: "ddy", raw_getter: "", ty: Ty::I8, off: 33, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ddz", getter: "ddz", raw_getter: "", ty: Ty::I8, off: 34, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tb", getter: "tb", raw_getter: "", ty: Ty::U8, off: 35, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "gamma", getter: "gamma", raw_getter: "", ty: Ty::U16, off: 36, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "e", getter: "e", raw_getter: "", ty: Ty::U8, off: 38, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "delta_tau", getter: "delta_tau", raw_getter: "", ty: Ty::U8, off: 39, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tau", getter: "tau", raw_getter: "", ty: Ty::I32, off: 40, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(4), off: 44, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MgaGpsIono", class: 0x13, id: 0x0, fixed: Some(16), max: 16, min: 16, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "msg_type", getter: "msg_type", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "alpha0", getter: "alpha0", raw_getter: "alpha0_raw", ty: Ty::I8, off: 4, size: 1, conv: Conv::Scaled { f32: false, scale: 9.313225746154785e-10 }, checked: false },
        Field { name: "alpha1", getter: "alpha1", raw_getter: "alpha1_raw", ty: Ty::I8, off: 5, size: 1, conv: Conv::Scaled { f32: false, scale: 7.450580596923828e-09 }, checked: false },
        Field { name: "alpha2", getter: "alpha2", raw_getter: "alpha2_raw", ty: Ty::I8, off: 6, size: 1, conv: Conv::Scaled { f32: false, scale: 5.960464477539063e-08 }, checked: false },
        Field { name: "alpha3", getter: "alpha3", raw_getter: "alpha3_raw", ty: Ty::I8, off: 7, size: 1, conv: Conv::Scaled { f32: false, scale: 5.960464477539063e-08 }, checked: false },
        Field { name: "beta0", getter: "beta0", raw_getter: "beta0_raw", ty: Ty::I8, off: 8, size: 1, conv: Conv::Scaled { f32: false, scale: 2048.0 }, checked: false },
        Field { name: "beta1", getter: "beta1", raw_getter: "beta1_raw", ty: Ty::I8, off: 9, size: 1, conv: Conv::Scaled { f32: false, scale: 16384.0 }, checked: false },
        Field { name: "beta2", getter: "beta2", raw_getter: "beta2_raw", ty: Ty::I8, off: 10, size: 1, conv: Conv::Scaled { f32: false, scale: 65536.0 }, checked: false },
        Field { name: "beta3", getter: "beta3", raw_getter: "beta3_raw", ty: Ty::I8, off: 11, size: 1, conv: Conv::Scaled { f32: false, scale: 65536.0 }, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(4), off: 12, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MgaGpsEph", class: 0x13, id: 0x0, fixed: Some(68), max: 68, min: 68, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "msg_type", getter: "msg_type", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "fit_interval", getter: "fit_interval", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ura_index", getter: "ura_index", raw_getter: "", ty: Ty::U8, off: 5, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_health", getter: "sv_health", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tgd", getter: "tgd", raw_getter: "", ty: Ty::I8, off: 7, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "iodc", getter: "iodc", raw_getter: "", ty: Ty::U16, off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "toc", getter: "toc", raw_getter: "", ty: Ty::U16, off: 10, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 12, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "af2", getter: "af2", raw_getter: "", ty: Ty::I8, off: 13, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "af1", getter: "af1", raw_getter: "", ty: Ty::I16, off: 14, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "af0", getter: "af0", raw_getter: "", ty: Ty::I32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "crs", getter: "crs", raw_getter: "", ty: Ty::I16, off: 20, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "delta_n", getter: "delta_n", raw_getter: "", ty: Ty::I16, off: 22, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "m0", getter: "m0", raw_getter: "", ty: Ty::I32, off: 24, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "cuc", getter: "cuc", raw_getter: "", ty: Ty::I16, off: 28, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "cus", getter: "cus", raw_getter: "", ty: Ty::I16, off: 30, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "e", getter: "e", raw_getter: "", ty: Ty::U32, off: 32, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "sqrt_a", getter: "sqrt_a", raw_getter: "", ty: Ty::U32, off: 36, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "toe", getter: "toe", raw_getter: "", ty: Ty::U16, off: 40, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "cic", getter: "cic", raw_getter: "", ty: Ty::I16, off: 42, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "omega0", getter: "omega0", raw_getter: "", ty: Ty::I32, off: 44, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "cis", getter: "cis", raw_getter: "", ty: Ty::I16, off: 48, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "crc", getter: "crc", raw_getter: "", ty: Ty::I16, off: 50, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "i0", getter: "i0", raw_getter: "", ty: Ty::I32, off: 52, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "omega", getter: "omega", raw_getter: "", ty: Ty::I32, off: 56, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "omega_dot", getter: "omega_dot", raw_getter: "", ty: Ty::I32, off: 60, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "idot", getter: "idot", raw_getter: "", ty: Ty::I16, off: 64, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::Arr(2), off: 66, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "TimTp", class: 0xd, id: 0x1, fixed: Some(16), max: 16, min: 16, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "tow_ms", getter: "tow_ms", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tow_sub_ms", getter: "tow_sub_ms", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "q_err", getter: "q_err", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "week", getter: "week", raw_getter: "", ty: Ty::U16, off: 12, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 14, size: 1, conv: Conv::Custom("TimTpFlags"), checked: false },
        Field { name: "ref_info", getter: "ref_info", raw_getter: "ref_info_raw", ty: Ty::U8, off: 15, size: 1, conv: Conv::Custom("TimTpRefInfo"), checked: false },
    ] },
    PacketSpec { name: "TimTm2", class: 0xd, id: 0x3, fixed: Some(28), max: 28, min: 28, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "ch", getter: "ch", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 1, size: 1, conv: Conv::Custom("TimTm2Flags"), checked: false },
        Field { name: "count", getter: "count", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "wn_r", getter: "wn_r", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "wn_f", getter: "wn_f", raw_getter: "", ty: Ty::U16, off: 6, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "tow_ms_r", getter: "tow_ms_r", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tow_sub_ms_r", getter: "tow_sub_ms_r", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tow_ms_f", getter: "tow_ms_f", raw_getter: "", ty: Ty::U32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "tow_sub_ms_f", getter: "tow_sub_ms_f", raw_getter: "", ty: Ty::U32, off: 20, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "acc_est", getter: "acc_est", raw_getter: "", ty: Ty::U32, off: 24, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "RxmRawx", class: 0x2, id: 0x15, fixed: None, max: 8176, min: 16, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "rcv_tow", getter: "rcv_tow", raw_getter: "", ty: Ty::F64, off: 0, size: 8, conv: Conv::Plain, checked: false },
        Field { name: "week", getter: "week", raw_getter: "", ty: Ty::U16, off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "leap_s", getter: "leap_s", raw_getter: "", ty: Ty::I8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "num_meas", getter: "num_meas", raw_getter: "", ty: Ty::U8, off: 11, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "rec_stat", getter: "rec_stat", raw_getter: "rec_stat_raw", ty: Ty::U8, off: 12, size: 1, conv: Conv::Flags(20), checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 13, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 14, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "measurements", getter: "measurements", raw_getter: "", ty: Ty::Var, off: 16, size: 0, conv: Conv::Custom("RxmRawxInfoIter"), checked: true },
    ] },
    PacketSpec { name: "MonHw", class: 0xa, id: 0x9, fixed: Some(60), max: 60, min: 60, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "pin_sel", getter: "pin_sel", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pin_bank", getter: "pin_bank", raw_getter: "", ty: Ty::U32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pin_dir", getter: "pin_dir", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pin_val", getter: "pin_val", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "noise_per_ms", getter: "noise_per_ms", raw_getter: "", ty: Ty::U16, off: 16, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "agc_cnt", getter: "agc_cnt", raw_getter: "", ty: Ty::U16, off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "a_status", getter: "a_status", raw_getter: "a_status_raw", ty: Ty::U8, off: 20, size: 1, conv: Conv::Enum(13), checked: false },
        Field { name: "a_power", getter: "a_power", raw_getter: "a_power_raw", ty: Ty::U8, off: 21, size: 1, conv: Conv::Enum(14), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U8, off: 22, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 23, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "used_mask", getter: "used_mask", raw_getter: "", ty: Ty::U32, off: 24, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "vp", getter: "vp", raw_getter: "", ty: Ty::Arr(17), off: 28, size: 17, conv: Conv::Plain, checked: false },
        Field { name: "jam_ind", getter: "jam_ind", raw_getter: "", ty: Ty::U8, off: 45, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(2), off: 46, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "pin_irq", getter: "pin_irq", raw_getter: "", ty: Ty::U32, off: 48, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pull_h", getter: "pull_h", raw_getter: "", ty: Ty::U32, off: 52, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "pull_l", getter: "pull_l", raw_getter: "", ty: Ty::U32, off: 56, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MonGnss", class: 0xa, id: 0x28, fixed: Some(8), max: 8, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "supported", getter: "supported", raw_getter: "supported_raw", ty: Ty::U8, off: 1, size: 1, conv: Conv::Flags(21), checked: false },
        Field { name: "default", getter: "default", raw_getter: "default_raw", ty: Ty::U8, off: 2, size: 1, conv: Conv::Flags(21), checked: false },
        Field { name: "enabled", getter: "enabled", raw_getter: "enabled_raw", ty: Ty::U8, off: 3, size: 1, conv: Conv::Flags(21), checked: false },
        Field { name: "simultaneous", getter: "simultaneous", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 5, size: 3, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MonVer", class: 0xa, id: 0x4, fixed: None, max: 1240, min: 40, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "software_version", getter: "software_version", raw_getter: "software_version_raw", ty: Ty::Arr(30), off: 0, size: 30, conv: Conv::Custom("&str"), checked: true },
        Field { name: "hardware_version", getter: "hardware_version", raw_getter: "hardware_version_raw", ty: Ty::Arr(10), off: 30, size: 10, conv: Conv::Custom("&str"), checked: true },
        Field { name: "extension", getter: "extension", raw_getter: "", ty: Ty::Var, off: 40, size: 0, conv: Conv::Custom("MonVerExtensionIter"), checked: true },
    ] },
    PacketSpec { name: "RxmRtcm", class: 0x2, id: 0x32, fixed: Some(8), max: 8, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sub_type", getter: "sub_type", raw_getter: "", ty: Ty::U16, off: 2, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "ref_station", getter: "ref_station", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "msg_type", getter: "msg_type", raw_getter: "", ty: Ty::U16, off: 6, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "EsfMeas", class: 0x10, id: 0x2, fixed: None, max: 1240, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "time_tag", getter: "time_tag", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "id", getter: "id", raw_getter: "", ty: Ty::U16, off: 6, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "data", getter: "data", raw_getter: "", ty: Ty::Var, off: 8, size: 0, conv: Conv::Custom("EsfMeasDataIter"), checked: true },
        Field { name: "calib_tag", getter: "calib_tag", raw_getter: "", ty: Ty::Var, off: 8, size: 0, conv: Conv::Custom("Option<u32>"), checked: false },
    ] },
    PacketSpec { name: "EsfRaw", class: 0x10, id: 0x3, fixed: None, max: 1240, min: 4, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "msss", getter: "msss", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "data", getter: "data", raw_getter: "", ty: Ty::Var, off: 4, size: 0, conv: Conv::Custom("EsfRawDataIter"), checked: true },
    ] },
    PacketSpec { name: "EsfIns", class: 0x10, id: 0x15, fixed: Some(36), max: 36, min: 36, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "bit_field", getter: "bit_field", raw_getter: "bit_field_raw", ty: Ty::U32, off: 0, size: 4, conv: Conv::Flags(22), checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(4), off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "x_ang_rate", getter: "x_angular_rate", raw_getter: "x_angular_rate_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "y_ang_rate", getter: "y_angular_rate", raw_getter: "y_angular_rate_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "z_ang_rate", getter: "z_angular_rate", raw_getter: "z_angular_rate_raw", ty: Ty::I32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "x_accel", getter: "x_acceleration", raw_getter: "x_acceleration_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "y_accel", getter: "y_acceleration", raw_getter: "y_acceleration_raw", ty: Ty::I32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "z_accel", getter: "z_acceleration", raw_getter: "z_acceleration_raw", ty: Ty::I32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
    ] },
    PacketSpec { name: "HnrAtt", class: 0x28, id: 0x1, fixed: Some(32), max: 32, min: 32, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 5, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "roll", getter: "vehicle_roll", raw_getter: "vehicle_roll_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "pitch", getter: "vehicle_pitch", raw_getter: "vehicle_pitch_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "heading", getter: "vehicle_heading", raw_getter: "vehicle_heading_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_roll", getter: "vehicle_roll_accuracy", raw_getter: "vehicle_roll_accuracy_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_pitch", getter: "vehicle_pitch_accuracy", raw_getter: "vehicle_pitch_accuracy_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_heading", getter: "vehicle_heading_accuracy", raw_getter: "vehicle_heading_accuracy_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
    ] },
    PacketSpec { name: "HnrIns", class: 0x28, id: 0x2, fixed: Some(36), max: 36, min: 36, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "bit_field", getter: "bit_field", raw_getter: "bit_field_raw", ty: Ty::U32, off: 0, size: 4, conv: Conv::Flags(23), checked: false },
        Field { name: "reserved", getter: "reserved", raw_getter: "", ty: Ty::Arr(4), off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "x_ang_rate", getter: "x_angular_rate", raw_getter: "x_angular_rate_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "y_ang_rate", getter: "y_angular_rate", raw_getter: "y_angular_rate_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "z_ang_rate", getter: "z_angular_rate", raw_getter: "z_angular_rate_raw", ty: Ty::I32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "x_accel", getter: "x_acceleration", raw_getter: "x_acceleration_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "y_accel", getter: "y_acceleration", raw_getter: "y_acceleration_raw", ty: Ty::I32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
        Field { name: "z_accel", getter: "z_acceleration", raw_getter: "z_acceleration_raw", ty: Ty::I32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.01 }, checked: false },
    ] },
    PacketSpec { name: "HnrPvt", class: 0x28, id: 0x0, fixed: Some(72), max: 72, min: 72, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "year", getter: "year", raw_getter: "", ty: Ty::U16, off: 4, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "month", getter: "month", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "day", getter: "day", raw_getter: "", ty: Ty::U8, off: 7, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "hour", getter: "hour", raw_getter: "", ty: Ty::U8, off: 8, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "min", getter: "min", raw_getter: "", ty: Ty::U8, off: 9, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sec", getter: "sec", raw_getter: "", ty: Ty::U8, off: 10, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "valid", getter: "valid", raw_getter: "valid_raw", ty: Ty::U8, off: 11, size: 1, conv: Conv::Flags(25), checked: false },
        Field { name: "nano", getter: "nano", raw_getter: "", ty: Ty::I32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "gps_fix", getter: "gps_fix", raw_getter: "gps_fix_raw", ty: Ty::U8, off: 16, size: 1, conv: Conv::Enum(0), checked: false },
        Field { name: "flags", getter: "flags", raw_getter: "flags_raw", ty: Ty::U8, off: 17, size: 1, conv: Conv::Flags(24), checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(2), off: 18, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "lon", getter: "longitude", raw_getter: "longitude_raw", ty: Ty::I32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "lat", getter: "latitude", raw_getter: "latitude_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-07 }, checked: false },
        Field { name: "height", getter: "height_above_ellipsoid", raw_getter: "height_above_ellipsoid_raw", ty: Ty::I32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "height_msl", getter: "height_msl", raw_getter: "height_msl_raw", ty: Ty::I32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "g_speed", getter: "ground_speed_2d", raw_getter: "ground_speed_2d_raw", ty: Ty::I32, off: 36, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "speed", getter: "speed_3d", raw_getter: "speed_3d_raw", ty: Ty::I32, off: 40, size: 4, conv: Conv::Scaled { f32: false, scale: 0.001 }, checked: false },
        Field { name: "head_mot", getter: "heading_motion", raw_getter: "heading_motion_raw", ty: Ty::I32, off: 44, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "head_veh", getter: "heading_vehicle", raw_getter: "heading_vehicle_raw", ty: Ty::I32, off: 48, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "h_acc", getter: "h_acc", raw_getter: "", ty: Ty::U32, off: 52, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "v_acc", getter: "v_acc", raw_getter: "", ty: Ty::U32, off: 56, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "s_acc", getter: "s_acc", raw_getter: "", ty: Ty::U32, off: 60, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "head_acc", getter: "heading_accurracy", raw_getter: "heading_accurracy_raw", ty: Ty::U32, off: 64, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::Arr(4), off: 68, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "NavAtt", class: 0x1, id: 0x5, fixed: Some(32), max: 32, min: 32, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 5, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "roll", getter: "vehicle_roll", raw_getter: "vehicle_roll_raw", ty: Ty::I32, off: 8, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "pitch", getter: "vehicle_pitch", raw_getter: "vehicle_pitch_raw", ty: Ty::I32, off: 12, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "heading", getter: "vehicle_heading", raw_getter: "vehicle_heading_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_roll", getter: "vehicle_roll_accuracy", raw_getter: "vehicle_roll_accuracy_raw", ty: Ty::U32, off: 20, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_pitch", getter: "vehicle_pitch_accuracy", raw_getter: "vehicle_pitch_accuracy_raw", ty: Ty::U32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
        Field { name: "acc_heading", getter: "vehicle_heading_accuracy", raw_getter: "vehicle_heading_accuracy_raw", ty: Ty::U32, off: 28, size: 4, conv: Conv::Scaled { f32: false, scale: 1e-05 }, checked: false },
    ] },
    PacketSpec { name: "NavClock", class: 0x1, id: 0x22, fixed: Some(20), max: 20, min: 20, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "clk_b", getter: "clk_b", raw_getter: "", ty: Ty::I32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "clk_d", getter: "clk_d", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "t_acc", getter: "t_acc", raw_getter: "", ty: Ty::U32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "f_acc", getter: "f_acc", raw_getter: "", ty: Ty::U32, off: 16, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "RxmSfrbx", class: 0x2, id: 0x13, fixed: None, max: 72, min: 8, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "gnss_id", getter: "gnss_id", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "freq_id", getter: "freq_id", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "num_words", getter: "num_words", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 5, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::U8, off: 7, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "dwrd", getter: "dwrd", raw_getter: "", ty: Ty::Var, off: 8, size: 0, conv: Conv::Custom("DwrdIter"), checked: true },
    ] },
    PacketSpec { name: "NavVelECEF", class: 0x1, id: 0x11, fixed: Some(20), max: 20, min: 20, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "itow", getter: "itow", raw_getter: "", ty: Ty::U32, off: 0, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_vx", getter: "ecef_vx", raw_getter: "", ty: Ty::I32, off: 4, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_vy", getter: "ecef_vy", raw_getter: "", ty: Ty::I32, off: 8, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "ecef_vz", getter: "ecef_vz", raw_getter: "", ty: Ty::I32, off: 12, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "s_acc", getter: "s_acc", raw_getter: "", ty: Ty::U32, off: 16, size: 4, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "MgaGpsEPH", class: 0x13, id: 0x0, fixed: Some(68), max: 68, min: 68, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "msg_type", getter: "msg_type", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 1, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 2, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::U8, off: 3, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "fit_interval", getter: "fit_interval", raw_getter: "", ty: Ty::U8, off: 4, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "ura_index", getter: "ura_index", raw_getter: "", ty: Ty::U8, off: 5, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_health", getter: "sv_health", raw_getter: "", ty: Ty::U8, off: 6, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "tgd", getter: "tgd", raw_getter: "tgd_raw", ty: Ty::I8, off: 7, size: 1, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "iodc", getter: "iodc", raw_getter: "", ty: Ty::U16, off: 8, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "toc", getter: "toc", raw_getter: "toc_raw", ty: Ty::U16, off: 10, size: 2, conv: Conv::Scaled { f32: false, scale: 20000.0 }, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 12, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "af2", getter: "af2", raw_getter: "af2_raw", ty: Ty::I8, off: 13, size: 1, conv: Conv::Scaled { f32: false, scale: 2e-55 }, checked: false },
        Field { name: "afl", getter: "afl", raw_getter: "afl_raw", ty: Ty::I16, off: 14, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-43 }, checked: false },
        Field { name: "af0", getter: "af0", raw_getter: "af0_raw", ty: Ty::I32, off: 16, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "crs", getter: "crs", raw_getter: "crs_raw", ty: Ty::I16, off: 20, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-05 }, checked: false },
        Field { name: "delta_n", getter: "delta_n", raw_getter: "delta_n_raw", ty: Ty::I16, off: 22, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-43 }, checked: false },
        Field { name: "m0", getter: "m0", raw_getter: "m0_raw", ty: Ty::I32, off: 24, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "cuc", getter: "cuc", raw_getter: "cuc_raw", ty: Ty::I16, off: 28, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-29 }, checked: false },
        Field { name: "cus", getter: "cus", raw_getter: "cus_raw", ty: Ty::I16, off: 30, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-29 }, checked: false },
        Field { name: "e", getter: "e", raw_getter: "e_raw", ty: Ty::U32, off: 32, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-33 }, checked: false },
        Field { name: "sqrt_a", getter: "sqrt_a", raw_getter: "sqrt_a_raw", ty: Ty::U32, off: 36, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-19 }, checked: false },
        Field { name: "toe", getter: "toe", raw_getter: "toe_raw", ty: Ty::U16, off: 40, size: 2, conv: Conv::Scaled { f32: false, scale: 20000.0 }, checked: false },
        Field { name: "cic", getter: "cic", raw_getter: "cic_raw", ty: Ty::I16, off: 42, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-29 }, checked: false },
        Field { name: "omega0", getter: "omega0", raw_getter: "omega0_raw", ty: Ty::I32, off: 44, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "cis", getter: "cis", raw_getter: "cis_raw", ty: Ty::I16, off: 48, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-29 }, checked: false },
        Field { name: "crc", getter: "crc", raw_getter: "crc_raw", ty: Ty::I16, off: 50, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-05 }, checked: false },
        Field { name: "i0", getter: "i0", raw_getter: "i0_raw", ty: Ty::I32, off: 52, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "omega", getter: "omega", raw_getter: "omega_raw", ty: Ty::I32, off: 56, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-31 }, checked: false },
        Field { name: "omega_dot", getter: "omega_dot", raw_getter: "omega_dot_raw", ty: Ty::I32, off: 60, size: 4, conv: Conv::Scaled { f32: false, scale: 2e-43 }, checked: false },
        Field { name: "idot", getter: "idot", raw_getter: "idot_raw", ty: Ty::I16, off: 64, size: 2, conv: Conv::Scaled { f32: false, scale: 2e-43 }, checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::Arr(2), off: 66, size: 2, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "RxmRawxInfo", class: 0x2, id: 0x15, fixed: Some(32), max: 32, min: 32, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "pr_mes", getter: "pr_mes", raw_getter: "", ty: Ty::F64, off: 0, size: 8, conv: Conv::Plain, checked: false },
        Field { name: "cp_mes", getter: "cp_mes", raw_getter: "", ty: Ty::F64, off: 8, size: 8, conv: Conv::Plain, checked: false },
        Field { name: "do_mes", getter: "do_mes", raw_getter: "", ty: Ty::F32, off: 16, size: 4, conv: Conv::Plain, checked: false },
        Field { name: "gnss_id", getter: "gnss_id", raw_getter: "", ty: Ty::U8, off: 20, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "sv_id", getter: "sv_id", raw_getter: "", ty: Ty::U8, off: 21, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved2", getter: "reserved2", raw_getter: "", ty: Ty::U8, off: 22, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "freq_id", getter: "freq_id", raw_getter: "", ty: Ty::U8, off: 23, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "lock_time", getter: "lock_time", raw_getter: "", ty: Ty::U16, off: 24, size: 2, conv: Conv::Plain, checked: false },
        Field { name: "cno", getter: "cno", raw_getter: "", ty: Ty::U8, off: 26, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "pr_stdev", getter: "pr_stdev", raw_getter: "pr_stdev_raw", ty: Ty::U8, off: 27, size: 1, conv: Conv::Flags(26), checked: false },
        Field { name: "cp_stdev", getter: "cp_stdev", raw_getter: "cp_stdev_raw", ty: Ty::U8, off: 28, size: 1, conv: Conv::Flags(26), checked: false },
        Field { name: "do_stdev", getter: "do_stdev", raw_getter: "do_stdev_raw", ty: Ty::U8, off: 29, size: 1, conv: Conv::Flags(26), checked: false },
        Field { name: "trk_stat", getter: "trk_stat", raw_getter: "trk_stat_raw", ty: Ty::U8, off: 30, size: 1, conv: Conv::Flags(27), checked: false },
        Field { name: "reserved3", getter: "reserved3", raw_getter: "", ty: Ty::U8, off: 31, size: 1, conv: Conv::Plain, checked: false },
    ] },
    PacketSpec { name: "SecUniqId", class: 0x27, id: 0x3, fixed: Some(9), max: 9, min: 9, recv: true, send: false, default_builder: false, fields: &[
        Field { name: "version", getter: "version", raw_getter: "", ty: Ty::U8, off: 0, size: 1, conv: Conv::Plain, checked: false },
        Field { name: "reserved1", getter: "reserved1", raw_getter: "", ty: Ty::Arr(3), off: 1, size: 3, conv: Conv::Plain, checked: false },
        Field { name: "unique_id", getter: "unique_id", raw_getter: "", ty: Ty::Arr(5), off: 4, size: 5, conv: Conv::Plain, checked: false },
    ] },
];

/// Dispatch order (first match wins).
pub static ORDER: &[&str] = &["NavPosLlh", "NavStatus", "NavDop", "NavPvt", "NavSolution", "NavVelNed", "NavHpPosLlh", "NavHpPosEcef", "NavTimeUTC", "NavTimeLs", "NavSat", "NavEoe", "NavOdo", "CfgOdo", "MgaAck", "MgaGpsIono", "MgaGpsEph", "MgaGloEph", "AlpSrv", "AckAck", "AckNak", "CfgItfm", "CfgPrtI2c", "CfgPrtSpi", "CfgPrtUart", "CfgNav5", "CfgAnt", "CfgTmode2", "CfgTmode3", "CfgTp5", "InfError", "InfWarning", "InfNotice", "InfTest", "InfDebug", "RxmRawx", "TimTp", "TimTm2", "MonVer", "MonGnss", "MonHw", "RxmRtcm", "EsfMeas", "EsfIns", "HnrAtt", "HnrIns", "HnrPvt", "NavAtt", "NavClock", "NavVelECEF", "MgaGpsEPH", "RxmSfrbx", "EsfRaw", "TimSvin", "SecUniqId"];
