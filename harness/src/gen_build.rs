// Generated by tools/gen.py from spec/*.json; do not edit.
#![allow(clippy::all)]
use crate::build::*;
use ublox::*;

pub fn mk_cfg_itfm_antenna_settings(v: i128) -> CfgItfmAntennaSettings {
    match v {
        0 => CfgItfmAntennaSettings::Unknown,
        1 => CfgItfmAntennaSettings::Active,
        2 => CfgItfmAntennaSettings::Passive,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_cfg_nav5_dyn_model(v: i128) -> CfgNav5DynModel {
    match v {
        0 => CfgNav5DynModel::Portable,
        2 => CfgNav5DynModel::Stationary,
        3 => CfgNav5DynModel::Pedestrian,
        4 => CfgNav5DynModel::Automotive,
        5 => CfgNav5DynModel::Sea,
        6 => CfgNav5DynModel::AirborneWithLess1gAcceleration,
        7 => CfgNav5DynModel::AirborneWithLess2gAcceleration,
        8 => CfgNav5DynModel::AirborneWith4gAcceleration,
        9 => CfgNav5DynModel::WristWornWatch,
        10 => CfgNav5DynModel::Bike,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_cfg_nav5_fix_mode(v: i128) -> CfgNav5FixMode {
    match v {
        1 => CfgNav5FixMode::Only2D,
        2 => CfgNav5FixMode::Only3D,
        3 => CfgNav5FixMode::Auto2D3D,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_cfg_nav5_utc_standard(v: i128) -> CfgNav5UtcStandard {
    match v {
        0 => CfgNav5UtcStandard::Automatic,
        3 => CfgNav5UtcStandard::Usno,
        6 => CfgNav5UtcStandard::UtcSu,
        7 => CfgNav5UtcStandard::UtcChina,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_cfg_tmode2_time_xfer_modes(v: i128) -> CfgTmode2TimeXferModes {
    match v {
        0 => CfgTmode2TimeXferModes::Disabled,
        1 => CfgTmode2TimeXferModes::SurveyIn,
        2 => CfgTmode2TimeXferModes::FixedMode,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_cfg_tp5_time_pulse_mode(v: i128) -> CfgTp5TimePulseMode {
    match v {
        0 => CfgTp5TimePulseMode::TimePulse,
        1 => CfgTp5TimePulseMode::TimePulse2,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_i2c_port_id(v: i128) -> I2cPortId {
    match v {
        0 => I2cPortId::I2c,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_odo_profile(v: i128) -> OdoProfile {
    match v {
        0 => OdoProfile::Running,
        1 => OdoProfile::Cycling,
        2 => OdoProfile::Swimming,
        3 => OdoProfile::Car,
        4 => OdoProfile::Custom,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_spi_port_id(v: i128) -> SpiPortId {
    match v {
        4 => SpiPortId::Spi,
        _ => panic!("harness: bad enum value"),
    }
}
pub fn mk_uart_port_id(v: i128) -> UartPortId {
    match v {
        1 => UartPortId::Uart1,
        2 => UartPortId::Uart2,
        3 => UartPortId::Usb,
        _ => panic!("harness: bad enum value"),
    }
}
#[allow(unused_variables)]
fn mkb_nav_reset_odo(i: &[Inp]) -> NavResetOdoBuilder {
    NavResetOdoBuilder {  }
}
#[allow(unused_variables)]
fn mkb_cfg_odo(i: &[Inp]) -> CfgOdoBuilder {
    CfgOdoBuilder { version: i[0].int() as u8, reserved: i[1].arr::<3>(), flags: OdoCogFilterFlags::from_bits_truncate(i[2].int() as u8), odo_cfg: mk_odo_profile(i[3].int()), reserved2: i[4].arr::<6>(), cog_max_speed: i[5].int() as u8, cog_max_pos_acc: i[6].int() as u8, reserved3: i[7].arr::<2>(), vel_lp_gain: i[8].int() as u8, cog_lp_gain: i[9].int() as u8, reserved4: i[10].arr::<2>() }
}
#[allow(unused_variables)]
fn mkb_cfg_itfm(i: &[Inp]) -> CfgItfmBuilder {
    CfgItfmBuilder { config: mk_cfg_itfm_config(&i[0]), config2: mk_cfg_itfm_config2(&i[1]) }
}
#[allow(unused_variables)]
fn mkb_cfg_inf(i: &[Inp]) -> CfgInfBuilder {
    CfgInfBuilder { protocol_id: i[0].int() as u8, reserved: i[1].arr::<3>(), inf_msg_mask_0: CfgInfMask::from_bits_truncate(i[2].int() as u8), inf_msg_mask_1: CfgInfMask::from_bits_truncate(i[3].int() as u8), inf_msg_mask_2: CfgInfMask::from_bits_truncate(i[4].int() as u8), inf_msg_mask_3: CfgInfMask::from_bits_truncate(i[5].int() as u8), inf_msg_mask_4: CfgInfMask::from_bits_truncate(i[6].int() as u8), inf_msg_mask_5: CfgInfMask::from_bits_truncate(i[7].int() as u8) }
}
#[allow(unused_variables)]
fn mkb_aid_ini(i: &[Inp]) -> AidIniBuilder {
    AidIniBuilder { ecef_x_or_lat: i[0].int() as i32, ecef_y_or_lon: i[1].int() as i32, ecef_z_or_alt: i[2].int() as i32, pos_accuracy: i[3].int() as u32, time_cfg: i[4].int() as u16, week_or_ym: i[5].int() as u16, tow_or_hms: i[6].int() as u32, tow_ns: i[7].int() as i32, tm_accuracy_ms: i[8].int() as u32, tm_accuracy_ns: i[9].int() as u32, clk_drift_or_freq: i[10].int() as i32, clk_drift_or_freq_accuracy: i[11].int() as u32, flags: i[12].int() as u32 }
}
#[allow(unused_variables)]
fn mkb_cfg_rst(i: &[Inp]) -> CfgRstBuilder {
    CfgRstBuilder { nav_bbr_mask: NavBbrMask::from_bits_truncate(i[0].int() as u16), reset_mode: mk_reset_mode(&i[1]), reserved1: i[2].int() as u8 }
}
#[allow(unused_variables)]
fn mkb_cfg_ant(i: &[Inp]) -> CfgAntBuilder {
    CfgAntBuilder { flags: AntFlags::from_bits_truncate(i[0].int() as u16), pins: i[1].int() as u16 }
}
#[allow(unused_variables)]
fn mkb_cfg_tp5(i: &[Inp]) -> CfgTp5Builder {
    CfgTp5Builder { tp_idx: mk_cfg_tp5_time_pulse_mode(i[0].int()), version: i[1].int() as u8, reserved1: i[2].arr::<2>(), ant_cable_delay: i[3].flt() as f32, rf_group_delay: i[4].flt() as f32, freq_period: i[5].flt() as f64, freq_period_lock: i[6].flt() as f64, pulse_len_ratio: i[7].flt() as f64, pulse_len_ratio_lock: i[8].flt() as f64, user_delay: i[9].flt() as f64, flags: CfgTp5Flags::from_bits_truncate(i[10].int() as u32) }
}
#[allow(unused_variables)]
fn mkb_cfg_tmode2(i: &[Inp]) -> CfgTmode2Builder {
    CfgTmode2Builder { time_transfer_mode: mk_cfg_tmode2_time_xfer_modes(i[0].int()), reserved1: i[1].int() as u8, flags: CfgTmode2Flags::from_bits_truncate(i[2].int() as u16), ecef_x_or_lat: i[3].flt() as f64, ecef_y_or_lon: i[4].flt() as f64, ecef_z_or_alt: i[5].flt() as f64, fixed_pos_acc: i[6].flt() as f64, survey_in_min_duration: i[7].int() as u32, survery_in_accur_limit: i[8].flt() as f64 }
}
#[allow(unused_variables)]
fn mkb_cfg_tmode3(i: &[Inp]) -> CfgTmode3Builder {
    CfgTmode3Builder { version: i[0].int() as u8, reserved1: i[1].int() as u8, rcvr_mode: CfgTmode3RcvrMode::from_bits_truncate(i[2].int() as u8), flags: CfgTmode3Flags::from_bits_truncate(i[3].int() as u8), ecef_x_or_lat: i[4].flt() as f64, ecef_y_or_lon: i[5].flt() as f64, ecef_z_or_alt: i[6].flt() as f64, ecef_x_or_lat_hp: i[7].flt() as f32, ecef_y_or_lon_hp: i[8].flt() as f32, ecef_z_or_alt_hp: i[9].flt() as f32, reserved2: i[10].int() as u8, fixed_pos_acc: i[11].flt() as f64, sv_in_min_duration: i[12].int() as u32, sv_in_accur_limit: i[13].flt() as f64, reserved3: i[14].arr::<8>() }
}
#[allow(unused_variables)]
fn mkb_cfg_prt_i2c(i: &[Inp]) -> CfgPrtI2cBuilder {
    CfgPrtI2cBuilder { portid: mk_i2c_port_id(i[0].int()), reserved1: i[1].int() as u8, tx_ready: i[2].int() as u16, mode: i[3].int() as u32, reserved2: i[4].int() as u32, in_proto_mask: InProtoMask::from_bits_truncate(i[5].int() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(i[6].int() as u16), flags: i[7].int() as u16, reserved3: i[8].int() as u16 }
}
#[allow(unused_variables)]
fn mkb_cfg_prt_uart(i: &[Inp]) -> CfgPrtUartBuilder {
    CfgPrtUartBuilder { portid: mk_uart_port_id(i[0].int()), reserved0: i[1].int() as u8, tx_ready: i[2].int() as u16, mode: mk_uart_mode(&i[3]), baud_rate: i[4].int() as u32, in_proto_mask: InProtoMask::from_bits_truncate(i[5].int() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(i[6].int() as u16), flags: i[7].int() as u16, reserved5: i[8].int() as u16 }
}
#[allow(unused_variables)]
fn mkb_cfg_prt_spi(i: &[Inp]) -> CfgPrtSpiBuilder {
    CfgPrtSpiBuilder { portid: mk_spi_port_id(i[0].int()), reserved0: i[1].int() as u8, tx_ready: i[2].int() as u16, mode: i[3].int() as u32, reserved3: i[4].int() as u32, in_proto_mask: InProtoMask::from_bits_truncate(i[5].int() as u16), out_proto_mask: OutProtoMask::from_bits_truncate(i[6].int() as u16), flags: i[7].int() as u16, reserved5: i[8].int() as u16 }
}
#[allow(unused_variables)]
fn mkb_cfg_rate(i: &[Inp]) -> CfgRateBuilder {
    CfgRateBuilder { measure_rate_ms: i[0].int() as u16, nav_rate: i[1].int() as u16, time_ref: mk_alignment_to_reference_time(&i[2]) }
}
#[allow(unused_variables)]
fn mkb_cfg_msg_single_port(i: &[Inp]) -> CfgMsgSinglePortBuilder {
    CfgMsgSinglePortBuilder { msg_class: i[0].int() as u8, msg_id: i[1].int() as u8, rate: i[2].int() as u8 }
}
#[allow(unused_variables)]
fn mkb_cfg_msg_all_ports(i: &[Inp]) -> CfgMsgAllPortsBuilder {
    CfgMsgAllPortsBuilder { msg_class: i[0].int() as u8, msg_id: i[1].int() as u8, rates: i[2].arr::<6>() }
}
#[allow(unused_variables)]
fn mkb_cfg_nav5(i: &[Inp]) -> CfgNav5Builder {
    CfgNav5Builder { mask: CfgNav5Params::from_bits_truncate(i[0].int() as u16), dyn_model: mk_cfg_nav5_dyn_model(i[1].int()), fix_mode: mk_cfg_nav5_fix_mode(i[2].int()), fixed_alt: i[3].flt() as f64, fixed_alt_var: i[4].flt() as f64, min_elev_degrees: i[5].int() as i8, dr_limit: i[6].int() as u8, pdop: i[7].flt() as f32, tdop: i[8].flt() as f32, pacc: i[9].int() as u16, tacc: i[10].int() as u16, static_hold_thresh: i[11].flt() as f32, dgps_time_out: i[12].int() as u8, cno_thresh_num_svs: i[13].int() as u8, cno_thresh: i[14].int() as u8, reserved1: i[15].arr::<2>(), static_hold_max_dist: i[16].int() as u16, utc_standard: mk_cfg_nav5_utc_standard(i[17].int()), reserved2: i[18].arr::<5>() }
}
#[allow(unused_variables)]
fn mkb_cfg_nav_x5(i: &[Inp]) -> CfgNavX5Builder {
    CfgNavX5Builder { version: i[0].int() as u16, mask1: CfgNavX5Params1::from_bits_truncate(i[1].int() as u16), mask2: CfgNavX5Params2::from_bits_truncate(i[2].int() as u32), reserved1: i[3].arr::<2>(), min_svs: i[4].int() as u8, max_svs: i[5].int() as u8, min_cno_dbhz: i[6].int() as u8, reserved2: i[7].int() as u8, ini_fix_3d: i[8].int() as u8, reserved3: i[9].arr::<2>(), ack_aiding: i[10].int() as u8, wkn_rollover: i[11].int() as u16, sig_atten_comp_mode: i[12].int() as u8, reserved4: i[13].int() as u8, reserved5: i[14].arr::<2>(), reserved6: i[15].arr::<2>(), use_ppp: i[16].int() as u8, aop_cfg: i[17].int() as u8, reserved7: i[18].arr::<2>(), aop_orb_max_err: i[19].int() as u16, reserved8: i[20].arr::<4>(), reserved9: i[21].arr::<3>(), use_adr: i[22].int() as u8 }
}
/// (explicit conversion, `From` conversion, advertised packet length)
pub fn bytes(name: &str, i: &[Inp]) -> (Vec<u8>, Vec<u8>, usize) {
    match name {
        "NavResetOdo" => (mkb_nav_reset_odo(i).into_packet_bytes().to_vec(), { let a: [u8; NavResetOdoBuilder::PACKET_LEN] = mkb_nav_reset_odo(i).into(); a.to_vec() }, NavResetOdoBuilder::PACKET_LEN),
        "CfgOdo" => (mkb_cfg_odo(i).into_packet_bytes().to_vec(), { let a: [u8; CfgOdoBuilder::PACKET_LEN] = mkb_cfg_odo(i).into(); a.to_vec() }, CfgOdoBuilder::PACKET_LEN),
        "CfgItfm" => (mkb_cfg_itfm(i).into_packet_bytes().to_vec(), { let a: [u8; CfgItfmBuilder::PACKET_LEN] = mkb_cfg_itfm(i).into(); a.to_vec() }, CfgItfmBuilder::PACKET_LEN),
        "CfgInf" => (mkb_cfg_inf(i).into_packet_bytes().to_vec(), { let a: [u8; CfgInfBuilder::PACKET_LEN] = mkb_cfg_inf(i).into(); a.to_vec() }, CfgInfBuilder::PACKET_LEN),
        "AidIni" => (mkb_aid_ini(i).into_packet_bytes().to_vec(), { let a: [u8; AidIniBuilder::PACKET_LEN] = mkb_aid_ini(i).into(); a.to_vec() }, AidIniBuilder::PACKET_LEN),
        "CfgRst" => (mkb_cfg_rst(i).into_packet_bytes().to_vec(), { let a: [u8; CfgRstBuilder::PACKET_LEN] = mkb_cfg_rst(i).into(); a.to_vec() }, CfgRstBuilder::PACKET_LEN),
        "CfgAnt" => (mkb_cfg_ant(i).into_packet_bytes().to_vec(), { let a: [u8; CfgAntBuilder::PACKET_LEN] = mkb_cfg_ant(i).into(); a.to_vec() }, CfgAntBuilder::PACKET_LEN),
        "CfgTp5" => (mkb_cfg_tp5(i).into_packet_bytes().to_vec(), { let a: [u8; CfgTp5Builder::PACKET_LEN] = mkb_cfg_tp5(i).into(); a.to_vec() }, CfgTp5Builder::PACKET_LEN),
        "CfgTmode2" => (mkb_cfg_tmode2(i).into_packet_bytes().to_vec(), { let a: [u8; CfgTmode2Builder::PACKET_LEN] = mkb_cfg_tmode2(i).into(); a.to_vec() }, CfgTmode2Builder::PACKET_LEN),
        "CfgTmode3" => (mkb_cfg_tmode3(i).into_packet_bytes().to_vec(), { let a: [u8; CfgTmode3Builder::PACKET_LEN] = mkb_cfg_tmode3(i).into(); a.to_vec() }, CfgTmode3Builder::PACKET_LEN),
        "CfgPrtI2c" => (mkb_cfg_prt_i2c(i).into_packet_bytes().to_vec(), { let a: [u8; CfgPrtI2cBuilder::PACKET_LEN] = mkb_cfg_prt_i2c(i).into(); a.to_vec() }, CfgPrtI2cBuilder::PACKET_LEN),
        "CfgPrtUart" => (mkb_cfg_prt_uart(i).into_packet_bytes().to_vec(), { let a: [u8; CfgPrtUartBuilder::PACKET_LEN] = mkb_cfg_prt_uart(i).into(); a.to_vec() }, CfgPrtUartBuilder::PACKET_LEN),
        "CfgPrtSpi" => (mkb_cfg_prt_spi(i).into_packet_bytes().to_vec(), { let a: [u8; CfgPrtSpiBuilder::PACKET_LEN] = mkb_cfg_prt_spi(i).into(); a.to_vec() }, CfgPrtSpiBuilder::PACKET_LEN),
        "CfgRate" => (mkb_cfg_rate(i).into_packet_bytes().to_vec(), { let a: [u8; CfgRateBuilder::PACKET_LEN] = mkb_cfg_rate(i).into(); a.to_vec() }, CfgRateBuilder::PACKET_LEN),
        "CfgMsgSinglePort" => (mkb_cfg_msg_single_port(i).into_packet_bytes().to_vec(), { let a: [u8; CfgMsgSinglePortBuilder::PACKET_LEN] = mkb_cfg_msg_single_port(i).into(); a.to_vec() }, CfgMsgSinglePortBuilder::PACKET_LEN),
        "CfgMsgAllPorts" => (mkb_cfg_msg_all_ports(i).into_packet_bytes().to_vec(), { let a: [u8; CfgMsgAllPortsBuilder::PACKET_LEN] = mkb_cfg_msg_all_ports(i).into(); a.to_vec() }, CfgMsgAllPortsBuilder::PACKET_LEN),
        "CfgNav5" => (mkb_cfg_nav5(i).into_packet_bytes().to_vec(), { let a: [u8; CfgNav5Builder::PACKET_LEN] = mkb_cfg_nav5(i).into(); a.to_vec() }, CfgNav5Builder::PACKET_LEN),
        "CfgNavX5" => (mkb_cfg_nav_x5(i).into_packet_bytes().to_vec(), { let a: [u8; CfgNavX5Builder::PACKET_LEN] = mkb_cfg_nav_x5(i).into(); a.to_vec() }, CfgNavX5Builder::PACKET_LEN),
        _ => panic!("harness: no builder {}", name),
    }
}

pub fn create<W: MemWriter>(name: &str, i: &[Inp], w: &mut W) -> Result<(), MemWriterError<W::Error>> {
    match name {
        "NavResetOdo" => mkb_nav_reset_odo(i).create_packet(w),
        "CfgOdo" => mkb_cfg_odo(i).create_packet(w),
        "CfgItfm" => mkb_cfg_itfm(i).create_packet(w),
        "CfgInf" => mkb_cfg_inf(i).create_packet(w),
        "AidIni" => mkb_aid_ini(i).create_packet(w),
        "CfgRst" => mkb_cfg_rst(i).create_packet(w),
        "CfgAnt" => mkb_cfg_ant(i).create_packet(w),
        "CfgTp5" => mkb_cfg_tp5(i).create_packet(w),
        "CfgTmode2" => mkb_cfg_tmode2(i).create_packet(w),
        "CfgTmode3" => mkb_cfg_tmode3(i).create_packet(w),
        "CfgPrtI2c" => mkb_cfg_prt_i2c(i).create_packet(w),
        "CfgPrtUart" => mkb_cfg_prt_uart(i).create_packet(w),
        "CfgPrtSpi" => mkb_cfg_prt_spi(i).create_packet(w),
        "CfgRate" => mkb_cfg_rate(i).create_packet(w),
        "CfgMsgSinglePort" => mkb_cfg_msg_single_port(i).create_packet(w),
        "CfgMsgAllPorts" => mkb_cfg_msg_all_ports(i).create_packet(w),
        "CfgNav5" => mkb_cfg_nav5(i).create_packet(w),
        "CfgNavX5" => mkb_cfg_nav_x5(i).create_packet(w),
        _ => panic!("harness: no builder {}", name),
    }
}

pub fn default_bytes(name: &str) -> Option<Vec<u8>> {
    Some(match name {
        "CfgOdo" => CfgOdoBuilder::default().into_packet_bytes().to_vec(),
        "CfgInf" => CfgInfBuilder::default().into_packet_bytes().to_vec(),
        "AidIni" => AidIniBuilder::default().into_packet_bytes().to_vec(),
        "CfgTp5" => CfgTp5Builder::default().into_packet_bytes().to_vec(),
        "CfgTmode2" => CfgTmode2Builder::default().into_packet_bytes().to_vec(),
        "CfgTmode3" => CfgTmode3Builder::default().into_packet_bytes().to_vec(),
        "CfgPrtI2c" => CfgPrtI2cBuilder::default().into_packet_bytes().to_vec(),
        "CfgPrtSpi" => CfgPrtSpiBuilder::default().into_packet_bytes().to_vec(),
        "CfgNav5" => CfgNav5Builder::default().into_packet_bytes().to_vec(),
        "CfgNavX5" => CfgNavX5Builder::default().into_packet_bytes().to_vec(),
        _ => return None,
    })
}

/// Rebuilds a received packet from its own accessors.
pub fn rebuild(p: &PacketRef) -> Option<Vec<u8>> {
    Some(match p {
        PacketRef::CfgOdo(x) => CfgOdoBuilder { version: x.version(), reserved: x.reserved(), flags: x.flags(), odo_cfg: x.odo_cfg(), reserved2: x.reserved2(), cog_max_speed: x.cog_max_speed(), cog_max_pos_acc: x.cog_max_pos_acc(), reserved3: x.reserved3(), vel_lp_gain: x.vel_lp_gain(), cog_lp_gain: x.cog_lp_gain(), reserved4: x.reserved4() }.into_packet_bytes().to_vec(),
        PacketRef::CfgItfm(x) => CfgItfmBuilder { config: x.config(), config2: x.config2() }.into_packet_bytes().to_vec(),
        PacketRef::CfgAnt(x) => CfgAntBuilder { flags: x.flags(), pins: x.pins() }.into_packet_bytes().to_vec(),
        PacketRef::CfgTp5(x) => CfgTp5Builder { tp_idx: x.tp_idx(), version: x.version(), reserved1: x.reserved1(), ant_cable_delay: x.ant_cable_delay(), rf_group_delay: x.rf_group_delay(), freq_period: x.freq_period(), freq_period_lock: x.freq_period_lock(), pulse_len_ratio: x.pulse_len_ratio(), pulse_len_ratio_lock: x.pulse_len_ratio_lock(), user_delay: x.user_delay(), flags: x.flags() }.into_packet_bytes().to_vec(),
        PacketRef::CfgTmode2(x) => CfgTmode2Builder { time_transfer_mode: x.time_transfer_mode(), reserved1: x.reserved1(), flags: x.flags(), ecef_x_or_lat: x.ecef_x_or_lat(), ecef_y_or_lon: x.ecef_y_or_lon(), ecef_z_or_alt: x.ecef_z_or_alt(), fixed_pos_acc: x.fixed_pos_acc(), survey_in_min_duration: x.survey_in_min_duration(), survery_in_accur_limit: x.survery_in_accur_limit() }.into_packet_bytes().to_vec(),
        PacketRef::CfgTmode3(x) => CfgTmode3Builder { version: x.version(), reserved1: x.reserved1(), rcvr_mode: x.rcvr_mode(), flags: x.flags(), ecef_x_or_lat: x.ecef_x_or_lat(), ecef_y_or_lon: x.ecef_y_or_lon(), ecef_z_or_alt: x.ecef_z_or_alt(), ecef_x_or_lat_hp: x.ecef_x_or_lat_hp(), ecef_y_or_lon_hp: x.ecef_y_or_lon_hp(), ecef_z_or_alt_hp: x.ecef_z_or_alt_hp(), reserved2: x.reserved2(), fixed_pos_acc: x.fixed_pos_acc(), sv_in_min_duration: x.sv_in_min_duration(), sv_in_accur_limit: x.sv_in_accur_limit(), reserved3: x.reserved3() }.into_packet_bytes().to_vec(),
        PacketRef::CfgPrtI2c(x) => CfgPrtI2cBuilder { portid: x.portid(), reserved1: x.reserved1(), tx_ready: x.tx_ready(), mode: x.mode(), reserved2: x.reserved2(), in_proto_mask: x.in_proto_mask(), out_proto_mask: x.out_proto_mask(), flags: x.flags(), reserved3: x.reserved3() }.into_packet_bytes().to_vec(),
        PacketRef::CfgPrtUart(x) => CfgPrtUartBuilder { portid: x.portid(), reserved0: x.reserved0(), tx_ready: x.tx_ready(), mode: x.mode(), baud_rate: x.baud_rate(), in_proto_mask: x.in_proto_mask(), out_proto_mask: x.out_proto_mask(), flags: x.flags(), reserved5: x.reserved5() }.into_packet_bytes().to_vec(),
        PacketRef::CfgPrtSpi(x) => CfgPrtSpiBuilder { portid: x.portid(), reserved0: x.reserved0(), tx_ready: x.tx_ready(), mode: x.mode(), reserved3: x.reserved3(), in_proto_mask: x.in_proto_mask(), out_proto_mask: x.out_proto_mask(), flags: x.flags(), reserved5: x.reserved5() }.into_packet_bytes().to_vec(),
        PacketRef::CfgNav5(x) => CfgNav5Builder { mask: x.mask(), dyn_model: x.dyn_model(), fix_mode: x.fix_mode(), fixed_alt: x.fixed_alt(), fixed_alt_var: x.fixed_alt_var(), min_elev_degrees: x.min_elev_degrees(), dr_limit: x.dr_limit(), pdop: x.pdop(), tdop: x.tdop(), pacc: x.pacc(), tacc: x.tacc(), static_hold_thresh: x.static_hold_thresh(), dgps_time_out: x.dgps_time_out(), cno_thresh_num_svs: x.cno_thresh_num_svs(), cno_thresh: x.cno_thresh(), reserved1: x.reserved1(), static_hold_max_dist: x.static_hold_max_dist(), utc_standard: x.utc_standard(), reserved2: x.reserved2() }.into_packet_bytes().to_vec(),
        _ => return None,
    })
}
