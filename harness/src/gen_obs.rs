// Generated by tools/gen.py from spec/*.json; do not edit.
#![allow(clippy::all)]
use crate::obs::*;
use crate::{enumv, flagv, get};
use ublox::*;

pub fn obs_nav_pos_llh(x: &NavPosLlhRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(14);
    get!(o, "itow", x.itow().tv());
    get!(o, "lon_degrees_raw", x.lon_degrees_raw().tv());
    get!(o, "lon_degrees", x.lon_degrees().tv());
    get!(o, "lat_degrees_raw", x.lat_degrees_raw().tv());
    get!(o, "lat_degrees", x.lat_degrees().tv());
    get!(o, "height_meters_raw", x.height_meters_raw().tv());
    get!(o, "height_meters", x.height_meters().tv());
    get!(o, "height_msl_raw", x.height_msl_raw().tv());
    get!(o, "height_msl", x.height_msl().tv());
    get!(o, "h_ack_raw", x.h_ack_raw().tv());
    get!(o, "h_ack", x.h_ack().tv());
    get!(o, "v_acc_raw", x.v_acc_raw().tv());
    get!(o, "v_acc", x.v_acc().tv());
    o
}

pub fn obs_nav_vel_ned(x: &NavVelNedRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "itow", x.itow().tv());
    get!(o, "vel_north_raw", x.vel_north_raw().tv());
    get!(o, "vel_north", x.vel_north().tv());
    get!(o, "vel_east_raw", x.vel_east_raw().tv());
    get!(o, "vel_east", x.vel_east().tv());
    get!(o, "vel_down_raw", x.vel_down_raw().tv());
    get!(o, "vel_down", x.vel_down().tv());
    get!(o, "speed_3d_raw", x.speed_3d_raw().tv());
    get!(o, "speed_3d", x.speed_3d().tv());
    get!(o, "ground_speed_raw", x.ground_speed_raw().tv());
    get!(o, "ground_speed", x.ground_speed().tv());
    get!(o, "heading_degrees_raw", x.heading_degrees_raw().tv());
    get!(o, "heading_degrees", x.heading_degrees().tv());
    get!(o, "speed_accuracy_estimate_raw", x.speed_accuracy_estimate_raw().tv());
    get!(o, "speed_accuracy_estimate", x.speed_accuracy_estimate().tv());
    get!(o, "course_heading_accuracy_estimate_raw", x.course_heading_accuracy_estimate_raw().tv());
    get!(o, "course_heading_accuracy_estimate", x.course_heading_accuracy_estimate().tv());
    o
}

pub fn obs_nav_hp_pos_llh(x: &NavHpPosLlhRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(26);
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "itow", x.itow().tv());
    get!(o, "lon_degrees_raw", x.lon_degrees_raw().tv());
    get!(o, "lon_degrees", x.lon_degrees().tv());
    get!(o, "lat_degrees_raw", x.lat_degrees_raw().tv());
    get!(o, "lat_degrees", x.lat_degrees().tv());
    get!(o, "height_meters_raw", x.height_meters_raw().tv());
    get!(o, "height_meters", x.height_meters().tv());
    get!(o, "height_msl_raw", x.height_msl_raw().tv());
    get!(o, "height_msl", x.height_msl().tv());
    get!(o, "lon_hp_degrees_raw", x.lon_hp_degrees_raw().tv());
    get!(o, "lon_hp_degrees", x.lon_hp_degrees().tv());
    get!(o, "lat_hp_degrees_raw", x.lat_hp_degrees_raw().tv());
    get!(o, "lat_hp_degrees", x.lat_hp_degrees().tv());
    get!(o, "height_hp_meters_raw", x.height_hp_meters_raw().tv());
    get!(o, "height_hp_meters", x.height_hp_meters().tv());
    get!(o, "height_hp_msl_raw", x.height_hp_msl_raw().tv());
    get!(o, "height_hp_msl", x.height_hp_msl().tv());
    get!(o, "horizontal_accuracy_raw", x.horizontal_accuracy_raw().tv());
    get!(o, "horizontal_accuracy", x.horizontal_accuracy().tv());
    get!(o, "vertical_accuracy_raw", x.vertical_accuracy_raw().tv());
    get!(o, "vertical_accuracy", x.vertical_accuracy().tv());
    o
}

pub fn obs_nav_hp_pos_ecef(x: &NavHpPosEcefRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(22);
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "itow", x.itow().tv());
    get!(o, "ecef_x_cm_raw", x.ecef_x_cm_raw().tv());
    get!(o, "ecef_x_cm", x.ecef_x_cm().tv());
    get!(o, "ecef_y_cm_raw", x.ecef_y_cm_raw().tv());
    get!(o, "ecef_y_cm", x.ecef_y_cm().tv());
    get!(o, "ecef_z_cm_raw", x.ecef_z_cm_raw().tv());
    get!(o, "ecef_z_cm", x.ecef_z_cm().tv());
    get!(o, "ecef_x_hp_mm_raw", x.ecef_x_hp_mm_raw().tv());
    get!(o, "ecef_x_hp_mm", x.ecef_x_hp_mm().tv());
    get!(o, "ecef_y_hp_mm_raw", x.ecef_y_hp_mm_raw().tv());
    get!(o, "ecef_y_hp_mm", x.ecef_y_hp_mm().tv());
    get!(o, "ecef_z_hp_mm_raw", x.ecef_z_hp_mm_raw().tv());
    get!(o, "ecef_z_hp_mm", x.ecef_z_hp_mm().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "p_acc_raw", x.p_acc_raw().tv());
    get!(o, "p_acc", x.p_acc().tv());
    o
}

pub fn obs_nav_pvt(x: &NavPvtRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(64);
    get!(o, "itow", x.itow().tv());
    get!(o, "year", x.year().tv());
    get!(o, "month", x.month().tv());
    get!(o, "day", x.day().tv());
    get!(o, "hour", x.hour().tv());
    get!(o, "min", x.min().tv());
    get!(o, "sec", x.sec().tv());
    get!(o, "valid", x.valid().tv());
    get!(o, "time_accuracy", x.time_accuracy().tv());
    get!(o, "nanosecond", x.nanosecond().tv());
    get!(o, "fix_type_raw", x.fix_type_raw().tv());
    get!(o, "fix_type", enumv!(x.fix_type()));
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "flags2_raw", x.flags2_raw().tv());
    get!(o, "flags2", flagv!(x.flags2()));
    get!(o, "num_satellites", x.num_satellites().tv());
    get!(o, "lon_degrees_raw", x.lon_degrees_raw().tv());
    get!(o, "lon_degrees", x.lon_degrees().tv());
    get!(o, "lat_degrees_raw", x.lat_degrees_raw().tv());
    get!(o, "lat_degrees", x.lat_degrees().tv());
    get!(o, "height_meters_raw", x.height_meters_raw().tv());
    get!(o, "height_meters", x.height_meters().tv());
    get!(o, "height_msl_raw", x.height_msl_raw().tv());
    get!(o, "height_msl", x.height_msl().tv());
    get!(o, "horiz_accuracy", x.horiz_accuracy().tv());
    get!(o, "vert_accuracy", x.vert_accuracy().tv());
    get!(o, "vel_north_raw", x.vel_north_raw().tv());
    get!(o, "vel_north", x.vel_north().tv());
    get!(o, "vel_east_raw", x.vel_east_raw().tv());
    get!(o, "vel_east", x.vel_east().tv());
    get!(o, "vel_down_raw", x.vel_down_raw().tv());
    get!(o, "vel_down", x.vel_down().tv());
    get!(o, "ground_speed_raw", x.ground_speed_raw().tv());
    get!(o, "ground_speed", x.ground_speed().tv());
    get!(o, "heading_degrees_raw", x.heading_degrees_raw().tv());
    get!(o, "heading_degrees", x.heading_degrees().tv());
    get!(o, "speed_accuracy_estimate_raw", x.speed_accuracy_estimate_raw().tv());
    get!(o, "speed_accuracy_estimate", x.speed_accuracy_estimate().tv());
    get!(o, "heading_accuracy_estimate_raw", x.heading_accuracy_estimate_raw().tv());
    get!(o, "heading_accuracy_estimate", x.heading_accuracy_estimate().tv());
    get!(o, "pdop", x.pdop().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "heading_of_vehicle_degrees_raw", x.heading_of_vehicle_degrees_raw().tv());
    get!(o, "heading_of_vehicle_degrees", x.heading_of_vehicle_degrees().tv());
    get!(o, "magnetic_declination_degrees_raw", x.magnetic_declination_degrees_raw().tv());
    get!(o, "magnetic_declination_degrees", x.magnetic_declination_degrees().tv());
    get!(o, "magnetic_declination_accuracy_degrees_raw", x.magnetic_declination_accuracy_degrees_raw().tv());
    get!(o, "magnetic_declination_accuracy_degrees", x.magnetic_declination_accuracy_degrees().tv());
    o
}

pub fn obs_nav_status(x: &NavStatusRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(14);
    get!(o, "itow", x.itow().tv());
    get!(o, "fix_type_raw", x.fix_type_raw().tv());
    get!(o, "fix_type", enumv!(x.fix_type()));
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "fix_stat_raw", x.fix_stat_raw().tv());
    get!(o, "fix_stat", fix_status_info(x.fix_stat()));
    get!(o, "flags2_raw", x.flags2_raw().tv());
    get!(o, "flags2", enumv!(x.flags2()));
    get!(o, "time_to_first_fix", x.time_to_first_fix().tv());
    get!(o, "uptime_ms", x.uptime_ms().tv());
    o
}

pub fn obs_nav_dop(x: &NavDopRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(16);
    get!(o, "itow", x.itow().tv());
    get!(o, "geometric_dop_raw", x.geometric_dop_raw().tv());
    get!(o, "geometric_dop", x.geometric_dop().tv());
    get!(o, "position_dop_raw", x.position_dop_raw().tv());
    get!(o, "position_dop", x.position_dop().tv());
    get!(o, "time_dop_raw", x.time_dop_raw().tv());
    get!(o, "time_dop", x.time_dop().tv());
    get!(o, "vertical_dop_raw", x.vertical_dop_raw().tv());
    get!(o, "vertical_dop", x.vertical_dop().tv());
    get!(o, "horizontal_dop_raw", x.horizontal_dop_raw().tv());
    get!(o, "horizontal_dop", x.horizontal_dop().tv());
    get!(o, "northing_dop_raw", x.northing_dop_raw().tv());
    get!(o, "northing_dop", x.northing_dop().tv());
    get!(o, "easting_dop_raw", x.easting_dop_raw().tv());
    get!(o, "easting_dop", x.easting_dop().tv());
    o
}

pub fn obs_nav_eoe(x: &NavEoeRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "itow", x.itow().tv());
    o
}

pub fn obs_nav_solution(x: &NavSolutionRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(34);
    get!(o, "itow", x.itow().tv());
    get!(o, "ftow_ns", x.ftow_ns().tv());
    get!(o, "week", x.week().tv());
    get!(o, "fix_type_raw", x.fix_type_raw().tv());
    get!(o, "fix_type", enumv!(x.fix_type()));
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "ecef_x_raw", x.ecef_x_raw().tv());
    get!(o, "ecef_x", x.ecef_x().tv());
    get!(o, "ecef_y_raw", x.ecef_y_raw().tv());
    get!(o, "ecef_y", x.ecef_y().tv());
    get!(o, "ecef_z_raw", x.ecef_z_raw().tv());
    get!(o, "ecef_z", x.ecef_z().tv());
    get!(o, "position_accuracy_estimate_raw", x.position_accuracy_estimate_raw().tv());
    get!(o, "position_accuracy_estimate", x.position_accuracy_estimate().tv());
    get!(o, "ecef_vx_raw", x.ecef_vx_raw().tv());
    get!(o, "ecef_vx", x.ecef_vx().tv());
    get!(o, "ecef_vy_raw", x.ecef_vy_raw().tv());
    get!(o, "ecef_vy", x.ecef_vy().tv());
    get!(o, "ecef_vz_raw", x.ecef_vz_raw().tv());
    get!(o, "ecef_vz", x.ecef_vz().tv());
    get!(o, "speed_accuracy_estimate_raw", x.speed_accuracy_estimate_raw().tv());
    get!(o, "speed_accuracy_estimate", x.speed_accuracy_estimate().tv());
    get!(o, "pdop_raw", x.pdop_raw().tv());
    get!(o, "pdop", x.pdop().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "num_sv", x.num_sv().tv());
    get!(o, "reserved2", x.reserved2().tv());
    o
}

pub fn obs_nav_sat_sv_info(x: &NavSatSvInfoRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(14);
    get!(o, "gnss_id", x.gnss_id().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "cno", x.cno().tv());
    get!(o, "elev", x.elev().tv());
    get!(o, "azim", x.azim().tv());
    get!(o, "pr_res", x.pr_res().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", nav_sat_sv_flags(x.flags()));
    o
}

pub fn obs_nav_sat(x: &NavSatRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "itow", x.itow().tv());
    get!(o, "version", x.version().tv());
    get!(o, "num_svs", x.num_svs().tv());
    get!(o, "reserved", x.reserved().tv());
    get!(o, "svs", nav_sat_iter(x.svs()));
    o
}

pub fn obs_nav_odo(x: &NavOdoRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(12);
    get!(o, "version", x.version().tv());
    get!(o, "reserved", x.reserved().tv());
    get!(o, "itow", x.itow().tv());
    get!(o, "distance", x.distance().tv());
    get!(o, "total_distance", x.total_distance().tv());
    get!(o, "distance_std", x.distance_std().tv());
    o
}

pub fn obs_cfg_odo(x: &CfgOdoRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(22);
    get!(o, "version", x.version().tv());
    get!(o, "reserved", x.reserved().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "odo_cfg_raw", x.odo_cfg_raw().tv());
    get!(o, "odo_cfg", enumv!(x.odo_cfg()));
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "cog_max_speed", x.cog_max_speed().tv());
    get!(o, "cog_max_pos_acc", x.cog_max_pos_acc().tv());
    get!(o, "reserved3", x.reserved3().tv());
    get!(o, "vel_lp_gain", x.vel_lp_gain().tv());
    get!(o, "cog_lp_gain", x.cog_lp_gain().tv());
    get!(o, "reserved4", x.reserved4().tv());
    o
}

pub fn obs_cfg_itfm(x: &CfgItfmRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(4);
    get!(o, "config_raw", x.config_raw().tv());
    get!(o, "config", cfg_itfm_config(x.config()));
    get!(o, "config2_raw", x.config2_raw().tv());
    get!(o, "config2", cfg_itfm_config2(x.config2()));
    o
}

pub fn obs_cfg_inf(x: &CfgInfRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(16);
    get!(o, "protocol_id", x.protocol_id().tv());
    get!(o, "reserved", x.reserved().tv());
    get!(o, "inf_msg_mask_0_raw", x.inf_msg_mask_0_raw().tv());
    get!(o, "inf_msg_mask_0", flagv!(x.inf_msg_mask_0()));
    get!(o, "inf_msg_mask_1_raw", x.inf_msg_mask_1_raw().tv());
    get!(o, "inf_msg_mask_1", flagv!(x.inf_msg_mask_1()));
    get!(o, "inf_msg_mask_2_raw", x.inf_msg_mask_2_raw().tv());
    get!(o, "inf_msg_mask_2", flagv!(x.inf_msg_mask_2()));
    get!(o, "inf_msg_mask_3_raw", x.inf_msg_mask_3_raw().tv());
    get!(o, "inf_msg_mask_3", flagv!(x.inf_msg_mask_3()));
    get!(o, "inf_msg_mask_4_raw", x.inf_msg_mask_4_raw().tv());
    get!(o, "inf_msg_mask_4", flagv!(x.inf_msg_mask_4()));
    get!(o, "inf_msg_mask_5_raw", x.inf_msg_mask_5_raw().tv());
    get!(o, "inf_msg_mask_5", flagv!(x.inf_msg_mask_5()));
    o
}

pub fn obs_inf_error(x: &InfErrorRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "message", x.message().tv());
    o
}

pub fn obs_inf_notice(x: &InfNoticeRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "message", x.message().tv());
    o
}

pub fn obs_inf_test(x: &InfTestRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "message", x.message().tv());
    o
}

pub fn obs_inf_warning(x: &InfWarningRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "message", x.message().tv());
    o
}

pub fn obs_inf_debug(x: &InfDebugRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(2);
    get!(o, "message", x.message().tv());
    o
}

pub fn obs_alp_srv(x: &AlpSrvRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "id_size", x.id_size().tv());
    get!(o, "data_type", x.data_type().tv());
    get!(o, "offset", x.offset().tv());
    get!(o, "size", x.size().tv());
    get!(o, "file_id", x.file_id().tv());
    get!(o, "data_size", x.data_size().tv());
    get!(o, "id1", x.id1().tv());
    get!(o, "id2", x.id2().tv());
    get!(o, "id3", x.id3().tv());
    o
}

pub fn obs_ack_ack(x: &AckAckRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(4);
    get!(o, "class", x.class().tv());
    get!(o, "msg_id", x.msg_id().tv());
    o
}

pub fn obs_ack_nak(x: &AckNakRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(4);
    get!(o, "class", x.class().tv());
    get!(o, "msg_id", x.msg_id().tv());
    o
}

pub fn obs_cfg_ant(x: &CfgAntRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(4);
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "pins", x.pins().tv());
    o
}

pub fn obs_cfg_tp5(x: &CfgTp5Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(22);
    get!(o, "tp_idx_raw", x.tp_idx_raw().tv());
    get!(o, "tp_idx", enumv!(x.tp_idx()));
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "ant_cable_delay_raw", x.ant_cable_delay_raw().tv());
    get!(o, "ant_cable_delay", x.ant_cable_delay().tv());
    get!(o, "rf_group_delay_raw", x.rf_group_delay_raw().tv());
    get!(o, "rf_group_delay", x.rf_group_delay().tv());
    get!(o, "freq_period_raw", x.freq_period_raw().tv());
    get!(o, "freq_period", x.freq_period().tv());
    get!(o, "freq_period_lock_raw", x.freq_period_lock_raw().tv());
    get!(o, "freq_period_lock", x.freq_period_lock().tv());
    get!(o, "pulse_len_ratio_raw", x.pulse_len_ratio_raw().tv());
    get!(o, "pulse_len_ratio", x.pulse_len_ratio().tv());
    get!(o, "pulse_len_ratio_lock_raw", x.pulse_len_ratio_lock_raw().tv());
    get!(o, "pulse_len_ratio_lock", x.pulse_len_ratio_lock().tv());
    get!(o, "user_delay_raw", x.user_delay_raw().tv());
    get!(o, "user_delay", x.user_delay().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    o
}

pub fn obs_cfg_tmode2(x: &CfgTmode2Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "time_transfer_mode_raw", x.time_transfer_mode_raw().tv());
    get!(o, "time_transfer_mode", enumv!(x.time_transfer_mode()));
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "ecef_x_or_lat_raw", x.ecef_x_or_lat_raw().tv());
    get!(o, "ecef_x_or_lat", x.ecef_x_or_lat().tv());
    get!(o, "ecef_y_or_lon_raw", x.ecef_y_or_lon_raw().tv());
    get!(o, "ecef_y_or_lon", x.ecef_y_or_lon().tv());
    get!(o, "ecef_z_or_alt_raw", x.ecef_z_or_alt_raw().tv());
    get!(o, "ecef_z_or_alt", x.ecef_z_or_alt().tv());
    get!(o, "fixed_pos_acc_raw", x.fixed_pos_acc_raw().tv());
    get!(o, "fixed_pos_acc", x.fixed_pos_acc().tv());
    get!(o, "survey_in_min_duration", x.survey_in_min_duration().tv());
    get!(o, "survery_in_accur_limit_raw", x.survery_in_accur_limit_raw().tv());
    get!(o, "survery_in_accur_limit", x.survery_in_accur_limit().tv());
    o
}

pub fn obs_tim_svin(x: &TimSvinRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "dur", x.dur().tv());
    get!(o, "mean_x", x.mean_x().tv());
    get!(o, "mean_y", x.mean_y().tv());
    get!(o, "mean_z", x.mean_z().tv());
    get!(o, "mean_v", x.mean_v().tv());
    get!(o, "obs", x.obs().tv());
    get!(o, "valid", x.valid().tv());
    get!(o, "active", x.active().tv());
    get!(o, "reserved", x.reserved().tv());
    o
}

pub fn obs_nav_time_ls(x: &NavTimeLsRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(24);
    get!(o, "itow", x.itow().tv());
    get!(o, "version", x.version().tv());
    get!(o, "reserved_1", x.reserved_1().tv());
    get!(o, "src_of_curr_ls", x.src_of_curr_ls().tv());
    get!(o, "current_ls", x.current_ls().tv());
    get!(o, "src_of_ls_change", x.src_of_ls_change().tv());
    get!(o, "ls_change", x.ls_change().tv());
    get!(o, "time_to_ls_event", x.time_to_ls_event().tv());
    get!(o, "date_of_ls_gps_wn", x.date_of_ls_gps_wn().tv());
    get!(o, "date_of_ls_gps_dn", x.date_of_ls_gps_dn().tv());
    get!(o, "reserved_2", x.reserved_2().tv());
    get!(o, "valid_raw", x.valid_raw().tv());
    get!(o, "valid", flagv!(x.valid()));
    o
}

pub fn obs_cfg_tmode3(x: &CfgTmode3Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(30);
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "rcvr_mode_raw", x.rcvr_mode_raw().tv());
    get!(o, "rcvr_mode", flagv!(x.rcvr_mode()));
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "ecef_x_or_lat_raw", x.ecef_x_or_lat_raw().tv());
    get!(o, "ecef_x_or_lat", x.ecef_x_or_lat().tv());
    get!(o, "ecef_y_or_lon_raw", x.ecef_y_or_lon_raw().tv());
    get!(o, "ecef_y_or_lon", x.ecef_y_or_lon().tv());
    get!(o, "ecef_z_or_alt_raw", x.ecef_z_or_alt_raw().tv());
    get!(o, "ecef_z_or_alt", x.ecef_z_or_alt().tv());
    get!(o, "ecef_x_or_lat_hp_raw", x.ecef_x_or_lat_hp_raw().tv());
    get!(o, "ecef_x_or_lat_hp", x.ecef_x_or_lat_hp().tv());
    get!(o, "ecef_y_or_lon_hp_raw", x.ecef_y_or_lon_hp_raw().tv());
    get!(o, "ecef_y_or_lon_hp", x.ecef_y_or_lon_hp().tv());
    get!(o, "ecef_z_or_alt_hp_raw", x.ecef_z_or_alt_hp_raw().tv());
    get!(o, "ecef_z_or_alt_hp", x.ecef_z_or_alt_hp().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "fixed_pos_acc_raw", x.fixed_pos_acc_raw().tv());
    get!(o, "fixed_pos_acc", x.fixed_pos_acc().tv());
    get!(o, "sv_in_min_duration", x.sv_in_min_duration().tv());
    get!(o, "sv_in_accur_limit_raw", x.sv_in_accur_limit_raw().tv());
    get!(o, "sv_in_accur_limit", x.sv_in_accur_limit().tv());
    get!(o, "reserved3", x.reserved3().tv());
    o
}

pub fn obs_cfg_prt_i2c(x: &CfgPrtI2cRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "portid_raw", x.portid_raw().tv());
    get!(o, "portid", enumv!(x.portid()));
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "tx_ready", x.tx_ready().tv());
    get!(o, "mode", x.mode().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "in_proto_mask_raw", x.in_proto_mask_raw().tv());
    get!(o, "in_proto_mask", flagv!(x.in_proto_mask()));
    get!(o, "out_proto_mask_raw", x.out_proto_mask_raw().tv());
    get!(o, "out_proto_mask", flagv!(x.out_proto_mask()));
    get!(o, "flags", x.flags().tv());
    get!(o, "reserved3", x.reserved3().tv());
    o
}

pub fn obs_cfg_prt_uart(x: &CfgPrtUartRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "portid_raw", x.portid_raw().tv());
    get!(o, "portid", enumv!(x.portid()));
    get!(o, "reserved0", x.reserved0().tv());
    get!(o, "tx_ready", x.tx_ready().tv());
    get!(o, "mode_raw", x.mode_raw().tv());
    get!(o, "mode", uart_mode(x.mode()));
    get!(o, "baud_rate", x.baud_rate().tv());
    get!(o, "in_proto_mask_raw", x.in_proto_mask_raw().tv());
    get!(o, "in_proto_mask", flagv!(x.in_proto_mask()));
    get!(o, "out_proto_mask_raw", x.out_proto_mask_raw().tv());
    get!(o, "out_proto_mask", flagv!(x.out_proto_mask()));
    get!(o, "flags", x.flags().tv());
    get!(o, "reserved5", x.reserved5().tv());
    o
}

pub fn obs_cfg_prt_spi(x: &CfgPrtSpiRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "portid_raw", x.portid_raw().tv());
    get!(o, "portid", enumv!(x.portid()));
    get!(o, "reserved0", x.reserved0().tv());
    get!(o, "tx_ready", x.tx_ready().tv());
    get!(o, "mode", x.mode().tv());
    get!(o, "reserved3", x.reserved3().tv());
    get!(o, "in_proto_mask_raw", x.in_proto_mask_raw().tv());
    get!(o, "in_proto_mask", flagv!(x.in_proto_mask()));
    get!(o, "out_proto_mask_raw", x.out_proto_mask_raw().tv());
    get!(o, "out_proto_mask", flagv!(x.out_proto_mask()));
    get!(o, "flags", x.flags().tv());
    get!(o, "reserved5", x.reserved5().tv());
    o
}

pub fn obs_nav_time_u_t_c(x: &NavTimeUTCRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(20);
    get!(o, "itow", x.itow().tv());
    get!(o, "time_accuracy_estimate_ns", x.time_accuracy_estimate_ns().tv());
    get!(o, "nanos", x.nanos().tv());
    get!(o, "year", x.year().tv());
    get!(o, "month", x.month().tv());
    get!(o, "day", x.day().tv());
    get!(o, "hour", x.hour().tv());
    get!(o, "min", x.min().tv());
    get!(o, "sec", x.sec().tv());
    get!(o, "valid_raw", x.valid_raw().tv());
    get!(o, "valid", flagv!(x.valid()));
    o
}

pub fn obs_cfg_nav5(x: &CfgNav5Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(38);
    get!(o, "mask_raw", x.mask_raw().tv());
    get!(o, "mask", flagv!(x.mask()));
    get!(o, "dyn_model_raw", x.dyn_model_raw().tv());
    get!(o, "dyn_model", enumv!(x.dyn_model()));
    get!(o, "fix_mode_raw", x.fix_mode_raw().tv());
    get!(o, "fix_mode", enumv!(x.fix_mode()));
    get!(o, "fixed_alt_raw", x.fixed_alt_raw().tv());
    get!(o, "fixed_alt", x.fixed_alt().tv());
    get!(o, "fixed_alt_var_raw", x.fixed_alt_var_raw().tv());
    get!(o, "fixed_alt_var", x.fixed_alt_var().tv());
    get!(o, "min_elev_degrees", x.min_elev_degrees().tv());
    get!(o, "dr_limit", x.dr_limit().tv());
    get!(o, "pdop_raw", x.pdop_raw().tv());
    get!(o, "pdop", x.pdop().tv());
    get!(o, "tdop_raw", x.tdop_raw().tv());
    get!(o, "tdop", x.tdop().tv());
    get!(o, "pacc", x.pacc().tv());
    get!(o, "tacc", x.tacc().tv());
    get!(o, "static_hold_thresh_raw", x.static_hold_thresh_raw().tv());
    get!(o, "static_hold_thresh", x.static_hold_thresh().tv());
    get!(o, "dgps_time_out", x.dgps_time_out().tv());
    get!(o, "cno_thresh_num_svs", x.cno_thresh_num_svs().tv());
    get!(o, "cno_thresh", x.cno_thresh().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "static_hold_max_dist", x.static_hold_max_dist().tv());
    get!(o, "utc_standard_raw", x.utc_standard_raw().tv());
    get!(o, "utc_standard", enumv!(x.utc_standard()));
    get!(o, "reserved2", x.reserved2().tv());
    o
}

pub fn obs_cfg_nav_x5(x: &CfgNavX5Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(46);
    get!(o, "version", x.version().tv());
    get!(o, "mask1_raw", x.mask1_raw().tv());
    get!(o, "mask1", flagv!(x.mask1()));
    get!(o, "mask2_raw", x.mask2_raw().tv());
    get!(o, "mask2", flagv!(x.mask2()));
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "min_svs", x.min_svs().tv());
    get!(o, "max_svs", x.max_svs().tv());
    get!(o, "min_cno_dbhz", x.min_cno_dbhz().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "ini_fix_3d", x.ini_fix_3d().tv());
    get!(o, "reserved3", x.reserved3().tv());
    get!(o, "ack_aiding", x.ack_aiding().tv());
    get!(o, "wkn_rollover", x.wkn_rollover().tv());
    get!(o, "sig_atten_comp_mode", x.sig_atten_comp_mode().tv());
    get!(o, "reserved4", x.reserved4().tv());
    get!(o, "reserved5", x.reserved5().tv());
    get!(o, "reserved6", x.reserved6().tv());
    get!(o, "use_ppp", x.use_ppp().tv());
    get!(o, "aop_cfg", x.aop_cfg().tv());
    get!(o, "reserved7", x.reserved7().tv());
    get!(o, "aop_orb_max_err", x.aop_orb_max_err().tv());
    get!(o, "reserved8", x.reserved8().tv());
    get!(o, "reserved9", x.reserved9().tv());
    get!(o, "use_adr", x.use_adr().tv());
    o
}

pub fn obs_mga_ack(x: &MgaAckRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "ack_type", x.ack_type().tv());
    get!(o, "version", x.version().tv());
    get!(o, "info_code_raw", x.info_code_raw().tv());
    get!(o, "info_code", enumv!(x.info_code()));
    get!(o, "msg_id", x.msg_id().tv());
    get!(o, "msg_payload_start", x.msg_payload_start().tv());
    o
}

pub fn obs_mga_glo_eph(x: &MgaGloEphRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(46);
    get!(o, "msg_type", x.msg_type().tv());
    get!(o, "version", x.version().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "ft", x.ft().tv());
    get!(o, "b", x.b().tv());
    get!(o, "m", x.m().tv());
    get!(o, "h", x.h().tv());
    get!(o, "x", x.x().tv());
    get!(o, "y", x.y().tv());
    get!(o, "z", x.z().tv());
    get!(o, "dx", x.dx().tv());
    get!(o, "dy", x.dy().tv());
    get!(o, "dz", x.dz().tv());
    get!(o, "ddx", x.ddx().tv());
    get!(o, "ddy", x.ddy().tv());
    get!(o, "ddz", x.ddz().tv());
    get!(o, "tb", x.tb().tv());
    get!(o, "gamma", x.gamma().tv());
    get!(o, "e", x.e().tv());
    get!(o, "delta_tau", x.delta_tau().tv());
    get!(o, "tau", x.tau().tv());
    get!(o, "reserved2", x.reserved2().tv());
    o
}

pub fn obs_mga_gps_iono(x: &MgaGpsIonoRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(24);
    get!(o, "msg_type", x.msg_type().tv());
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "alpha0_raw", x.alpha0_raw().tv());
    get!(o, "alpha0", x.alpha0().tv());
    get!(o, "alpha1_raw", x.alpha1_raw().tv());
    get!(o, "alpha1", x.alpha1().tv());
    get!(o, "alpha2_raw", x.alpha2_raw().tv());
    get!(o, "alpha2", x.alpha2().tv());
    get!(o, "alpha3_raw", x.alpha3_raw().tv());
    get!(o, "alpha3", x.alpha3().tv());
    get!(o, "beta0_raw", x.beta0_raw().tv());
    get!(o, "beta0", x.beta0().tv());
    get!(o, "beta1_raw", x.beta1_raw().tv());
    get!(o, "beta1", x.beta1().tv());
    get!(o, "beta2_raw", x.beta2_raw().tv());
    get!(o, "beta2", x.beta2().tv());
    get!(o, "beta3_raw", x.beta3_raw().tv());
    get!(o, "beta3", x.beta3().tv());
    get!(o, "reserved2", x.reserved2().tv());
    o
}

pub fn obs_mga_gps_eph(x: &MgaGpsEphRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(62);
    get!(o, "msg_type", x.msg_type().tv());
    get!(o, "version", x.version().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "fit_interval", x.fit_interval().tv());
    get!(o, "ura_index", x.ura_index().tv());
    get!(o, "sv_health", x.sv_health().tv());
    get!(o, "tgd", x.tgd().tv());
    get!(o, "iodc", x.iodc().tv());
    get!(o, "toc", x.toc().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "af2", x.af2().tv());
    get!(o, "af1", x.af1().tv());
    get!(o, "af0", x.af0().tv());
    get!(o, "crs", x.crs().tv());
    get!(o, "delta_n", x.delta_n().tv());
    get!(o, "m0", x.m0().tv());
    get!(o, "cuc", x.cuc().tv());
    get!(o, "cus", x.cus().tv());
    get!(o, "e", x.e().tv());
    get!(o, "sqrt_a", x.sqrt_a().tv());
    get!(o, "toe", x.toe().tv());
    get!(o, "cic", x.cic().tv());
    get!(o, "omega0", x.omega0().tv());
    get!(o, "cis", x.cis().tv());
    get!(o, "crc", x.crc().tv());
    get!(o, "i0", x.i0().tv());
    get!(o, "omega", x.omega().tv());
    get!(o, "omega_dot", x.omega_dot().tv());
    get!(o, "idot", x.idot().tv());
    get!(o, "reserved3", x.reserved3().tv());
    o
}

pub fn obs_tim_tp(x: &TimTpRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(12);
    get!(o, "tow_ms", x.tow_ms().tv());
    get!(o, "tow_sub_ms", x.tow_sub_ms().tv());
    get!(o, "q_err", x.q_err().tv());
    get!(o, "week", x.week().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", tim_tp_flags(x.flags()));
    get!(o, "ref_info_raw", x.ref_info_raw().tv());
    get!(o, "ref_info", tim_tp_ref_info(x.ref_info()));
    o
}

pub fn obs_tim_tm2(x: &TimTm2Ref) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(20);
    get!(o, "ch", x.ch().tv());
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", tim_tm2_flags(x.flags()));
    get!(o, "count", x.count().tv());
    get!(o, "wn_r", x.wn_r().tv());
    get!(o, "wn_f", x.wn_f().tv());
    get!(o, "tow_ms_r", x.tow_ms_r().tv());
    get!(o, "tow_sub_ms_r", x.tow_sub_ms_r().tv());
    get!(o, "tow_ms_f", x.tow_ms_f().tv());
    get!(o, "tow_sub_ms_f", x.tow_sub_ms_f().tv());
    get!(o, "acc_est", x.acc_est().tv());
    o
}

pub fn obs_rxm_rawx(x: &RxmRawxRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(16);
    get!(o, "rcv_tow", x.rcv_tow().tv());
    get!(o, "week", x.week().tv());
    get!(o, "leap_s", x.leap_s().tv());
    get!(o, "num_meas", x.num_meas().tv());
    get!(o, "rec_stat_raw", x.rec_stat_raw().tv());
    get!(o, "rec_stat", flagv!(x.rec_stat()));
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "measurements", rxm_rawx_info_iter(x.measurements()));
    o
}

pub fn obs_mon_hw(x: &MonHwRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(34);
    get!(o, "pin_sel", x.pin_sel().tv());
    get!(o, "pin_bank", x.pin_bank().tv());
    get!(o, "pin_dir", x.pin_dir().tv());
    get!(o, "pin_val", x.pin_val().tv());
    get!(o, "noise_per_ms", x.noise_per_ms().tv());
    get!(o, "agc_cnt", x.agc_cnt().tv());
    get!(o, "a_status_raw", x.a_status_raw().tv());
    get!(o, "a_status", enumv!(x.a_status()));
    get!(o, "a_power_raw", x.a_power_raw().tv());
    get!(o, "a_power", enumv!(x.a_power()));
    get!(o, "flags", x.flags().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "used_mask", x.used_mask().tv());
    get!(o, "vp", x.vp().tv());
    get!(o, "jam_ind", x.jam_ind().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "pin_irq", x.pin_irq().tv());
    get!(o, "pull_h", x.pull_h().tv());
    get!(o, "pull_l", x.pull_l().tv());
    o
}

pub fn obs_mon_gnss(x: &MonGnssRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(12);
    get!(o, "version", x.version().tv());
    get!(o, "supported_raw", x.supported_raw().tv());
    get!(o, "supported", flagv!(x.supported()));
    get!(o, "default_raw", x.default_raw().tv());
    get!(o, "default", flagv!(x.default()));
    get!(o, "enabled_raw", x.enabled_raw().tv());
    get!(o, "enabled", flagv!(x.enabled()));
    get!(o, "simultaneous", x.simultaneous().tv());
    get!(o, "reserved1", x.reserved1().tv());
    o
}

pub fn obs_mon_ver(x: &MonVerRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(6);
    get!(o, "software_version_raw", x.software_version_raw().tv());
    get!(o, "software_version", x.software_version().tv());
    get!(o, "hardware_version_raw", x.hardware_version_raw().tv());
    get!(o, "hardware_version", x.hardware_version().tv());
    get!(o, "extension", mon_ver_extension_iter(x.extension()));
    o
}

pub fn obs_rxm_rtcm(x: &RxmRtcmRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "version", x.version().tv());
    get!(o, "flags", x.flags().tv());
    get!(o, "sub_type", x.sub_type().tv());
    get!(o, "ref_station", x.ref_station().tv());
    get!(o, "msg_type", x.msg_type().tv());
    o
}

pub fn obs_esf_meas(x: &EsfMeasRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "time_tag", x.time_tag().tv());
    get!(o, "flags", x.flags().tv());
    get!(o, "id", x.id().tv());
    get!(o, "data", esf_meas_data_iter(x.data()));
    get!(o, "calib_tag", x.calib_tag().tv());
    o
}

pub fn obs_esf_raw(x: &EsfRawRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(4);
    get!(o, "msss", x.msss().tv());
    get!(o, "data", esf_raw_data_iter(x.data()));
    o
}

pub fn obs_esf_ins(x: &EsfInsRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "bit_field_raw", x.bit_field_raw().tv());
    get!(o, "bit_field", flagv!(x.bit_field()));
    get!(o, "reserved", x.reserved().tv());
    get!(o, "itow", x.itow().tv());
    get!(o, "x_angular_rate_raw", x.x_angular_rate_raw().tv());
    get!(o, "x_angular_rate", x.x_angular_rate().tv());
    get!(o, "y_angular_rate_raw", x.y_angular_rate_raw().tv());
    get!(o, "y_angular_rate", x.y_angular_rate().tv());
    get!(o, "z_angular_rate_raw", x.z_angular_rate_raw().tv());
    get!(o, "z_angular_rate", x.z_angular_rate().tv());
    get!(o, "x_acceleration_raw", x.x_acceleration_raw().tv());
    get!(o, "x_acceleration", x.x_acceleration().tv());
    get!(o, "y_acceleration_raw", x.y_acceleration_raw().tv());
    get!(o, "y_acceleration", x.y_acceleration().tv());
    get!(o, "z_acceleration_raw", x.z_acceleration_raw().tv());
    get!(o, "z_acceleration", x.z_acceleration().tv());
    o
}

pub fn obs_hnr_att(x: &HnrAttRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "itow", x.itow().tv());
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "vehicle_roll_raw", x.vehicle_roll_raw().tv());
    get!(o, "vehicle_roll", x.vehicle_roll().tv());
    get!(o, "vehicle_pitch_raw", x.vehicle_pitch_raw().tv());
    get!(o, "vehicle_pitch", x.vehicle_pitch().tv());
    get!(o, "vehicle_heading_raw", x.vehicle_heading_raw().tv());
    get!(o, "vehicle_heading", x.vehicle_heading().tv());
    get!(o, "vehicle_roll_accuracy_raw", x.vehicle_roll_accuracy_raw().tv());
    get!(o, "vehicle_roll_accuracy", x.vehicle_roll_accuracy().tv());
    get!(o, "vehicle_pitch_accuracy_raw", x.vehicle_pitch_accuracy_raw().tv());
    get!(o, "vehicle_pitch_accuracy", x.vehicle_pitch_accuracy().tv());
    get!(o, "vehicle_heading_accuracy_raw", x.vehicle_heading_accuracy_raw().tv());
    get!(o, "vehicle_heading_accuracy", x.vehicle_heading_accuracy().tv());
    o
}

pub fn obs_hnr_ins(x: &HnrInsRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "bit_field_raw", x.bit_field_raw().tv());
    get!(o, "bit_field", flagv!(x.bit_field()));
    get!(o, "reserved", x.reserved().tv());
    get!(o, "itow", x.itow().tv());
    get!(o, "x_angular_rate_raw", x.x_angular_rate_raw().tv());
    get!(o, "x_angular_rate", x.x_angular_rate().tv());
    get!(o, "y_angular_rate_raw", x.y_angular_rate_raw().tv());
    get!(o, "y_angular_rate", x.y_angular_rate().tv());
    get!(o, "z_angular_rate_raw", x.z_angular_rate_raw().tv());
    get!(o, "z_angular_rate", x.z_angular_rate().tv());
    get!(o, "x_acceleration_raw", x.x_acceleration_raw().tv());
    get!(o, "x_acceleration", x.x_acceleration().tv());
    get!(o, "y_acceleration_raw", x.y_acceleration_raw().tv());
    get!(o, "y_acceleration", x.y_acceleration().tv());
    get!(o, "z_acceleration_raw", x.z_acceleration_raw().tv());
    get!(o, "z_acceleration", x.z_acceleration().tv());
    o
}

pub fn obs_hnr_pvt(x: &HnrPvtRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(50);
    get!(o, "itow", x.itow().tv());
    get!(o, "year", x.year().tv());
    get!(o, "month", x.month().tv());
    get!(o, "day", x.day().tv());
    get!(o, "hour", x.hour().tv());
    get!(o, "min", x.min().tv());
    get!(o, "sec", x.sec().tv());
    get!(o, "valid_raw", x.valid_raw().tv());
    get!(o, "valid", flagv!(x.valid()));
    get!(o, "nano", x.nano().tv());
    get!(o, "gps_fix_raw", x.gps_fix_raw().tv());
    get!(o, "gps_fix", enumv!(x.gps_fix()));
    get!(o, "flags_raw", x.flags_raw().tv());
    get!(o, "flags", flagv!(x.flags()));
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "longitude_raw", x.longitude_raw().tv());
    get!(o, "longitude", x.longitude().tv());
    get!(o, "latitude_raw", x.latitude_raw().tv());
    get!(o, "latitude", x.latitude().tv());
    get!(o, "height_above_ellipsoid_raw", x.height_above_ellipsoid_raw().tv());
    get!(o, "height_above_ellipsoid", x.height_above_ellipsoid().tv());
    get!(o, "height_msl_raw", x.height_msl_raw().tv());
    get!(o, "height_msl", x.height_msl().tv());
    get!(o, "ground_speed_2d_raw", x.ground_speed_2d_raw().tv());
    get!(o, "ground_speed_2d", x.ground_speed_2d().tv());
    get!(o, "speed_3d_raw", x.speed_3d_raw().tv());
    get!(o, "speed_3d", x.speed_3d().tv());
    get!(o, "heading_motion_raw", x.heading_motion_raw().tv());
    get!(o, "heading_motion", x.heading_motion().tv());
    get!(o, "heading_vehicle_raw", x.heading_vehicle_raw().tv());
    get!(o, "heading_vehicle", x.heading_vehicle().tv());
    get!(o, "h_acc", x.h_acc().tv());
    get!(o, "v_acc", x.v_acc().tv());
    get!(o, "s_acc", x.s_acc().tv());
    get!(o, "heading_accurracy_raw", x.heading_accurracy_raw().tv());
    get!(o, "heading_accurracy", x.heading_accurracy().tv());
    get!(o, "reserved2", x.reserved2().tv());
    o
}

pub fn obs_nav_att(x: &NavAttRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "itow", x.itow().tv());
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "vehicle_roll_raw", x.vehicle_roll_raw().tv());
    get!(o, "vehicle_roll", x.vehicle_roll().tv());
    get!(o, "vehicle_pitch_raw", x.vehicle_pitch_raw().tv());
    get!(o, "vehicle_pitch", x.vehicle_pitch().tv());
    get!(o, "vehicle_heading_raw", x.vehicle_heading_raw().tv());
    get!(o, "vehicle_heading", x.vehicle_heading().tv());
    get!(o, "vehicle_roll_accuracy_raw", x.vehicle_roll_accuracy_raw().tv());
    get!(o, "vehicle_roll_accuracy", x.vehicle_roll_accuracy().tv());
    get!(o, "vehicle_pitch_accuracy_raw", x.vehicle_pitch_accuracy_raw().tv());
    get!(o, "vehicle_pitch_accuracy", x.vehicle_pitch_accuracy().tv());
    get!(o, "vehicle_heading_accuracy_raw", x.vehicle_heading_accuracy_raw().tv());
    get!(o, "vehicle_heading_accuracy", x.vehicle_heading_accuracy().tv());
    o
}

pub fn obs_nav_clock(x: &NavClockRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "itow", x.itow().tv());
    get!(o, "clk_b", x.clk_b().tv());
    get!(o, "clk_d", x.clk_d().tv());
    get!(o, "t_acc", x.t_acc().tv());
    get!(o, "f_acc", x.f_acc().tv());
    o
}

pub fn obs_rxm_sfrbx(x: &RxmSfrbxRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(18);
    get!(o, "gnss_id", x.gnss_id().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "freq_id", x.freq_id().tv());
    get!(o, "num_words", x.num_words().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "version", x.version().tv());
    get!(o, "reserved3", x.reserved3().tv());
    get!(o, "dwrd", dwrd_iter(x.dwrd()));
    o
}

pub fn obs_nav_vel_e_c_e_f(x: &NavVelECEFRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(10);
    get!(o, "itow", x.itow().tv());
    get!(o, "ecef_vx", x.ecef_vx().tv());
    get!(o, "ecef_vy", x.ecef_vy().tv());
    get!(o, "ecef_vz", x.ecef_vz().tv());
    get!(o, "s_acc", x.s_acc().tv());
    o
}

pub fn obs_mga_gps_e_p_h(x: &MgaGpsEPHRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(62);
    get!(o, "msg_type", x.msg_type().tv());
    get!(o, "version", x.version().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "fit_interval", x.fit_interval().tv());
    get!(o, "ura_index", x.ura_index().tv());
    get!(o, "sv_health", x.sv_health().tv());
    get!(o, "tgd_raw", x.tgd_raw().tv());
    get!(o, "tgd", x.tgd().tv());
    get!(o, "iodc", x.iodc().tv());
    get!(o, "toc_raw", x.toc_raw().tv());
    get!(o, "toc", x.toc().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "af2_raw", x.af2_raw().tv());
    get!(o, "af2", x.af2().tv());
    get!(o, "afl_raw", x.afl_raw().tv());
    get!(o, "afl", x.afl().tv());
    get!(o, "af0_raw", x.af0_raw().tv());
    get!(o, "af0", x.af0().tv());
    get!(o, "crs_raw", x.crs_raw().tv());
    get!(o, "crs", x.crs().tv());
    get!(o, "delta_n_raw", x.delta_n_raw().tv());
    get!(o, "delta_n", x.delta_n().tv());
    get!(o, "m0_raw", x.m0_raw().tv());
    get!(o, "m0", x.m0().tv());
    get!(o, "cuc_raw", x.cuc_raw().tv());
    get!(o, "cuc", x.cuc().tv());
    get!(o, "cus_raw", x.cus_raw().tv());
    get!(o, "cus", x.cus().tv());
    get!(o, "e_raw", x.e_raw().tv());
    get!(o, "e", x.e().tv());
    get!(o, "sqrt_a_raw", x.sqrt_a_raw().tv());
    get!(o, "sqrt_a", x.sqrt_a().tv());
    get!(o, "toe_raw", x.toe_raw().tv());
    get!(o, "toe", x.toe().tv());
    get!(o, "cic_raw", x.cic_raw().tv());
    get!(o, "cic", x.cic().tv());
    get!(o, "omega0_raw", x.omega0_raw().tv());
    get!(o, "omega0", x.omega0().tv());
    get!(o, "cis_raw", x.cis_raw().tv());
    get!(o, "cis", x.cis().tv());
    get!(o, "crc_raw", x.crc_raw().tv());
    get!(o, "crc", x.crc().tv());
    get!(o, "i0_raw", x.i0_raw().tv());
    get!(o, "i0", x.i0().tv());
    get!(o, "omega_raw", x.omega_raw().tv());
    get!(o, "omega", x.omega().tv());
    get!(o, "omega_dot_raw", x.omega_dot_raw().tv());
    get!(o, "omega_dot", x.omega_dot().tv());
    get!(o, "idot_raw", x.idot_raw().tv());
    get!(o, "idot", x.idot().tv());
    get!(o, "reserved3", x.reserved3().tv());
    o
}

pub fn obs_rxm_rawx_info(x: &RxmRawxInfoRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(28);
    get!(o, "pr_mes", x.pr_mes().tv());
    get!(o, "cp_mes", x.cp_mes().tv());
    get!(o, "do_mes", x.do_mes().tv());
    get!(o, "gnss_id", x.gnss_id().tv());
    get!(o, "sv_id", x.sv_id().tv());
    get!(o, "reserved2", x.reserved2().tv());
    get!(o, "freq_id", x.freq_id().tv());
    get!(o, "lock_time", x.lock_time().tv());
    get!(o, "cno", x.cno().tv());
    get!(o, "pr_stdev_raw", x.pr_stdev_raw().tv());
    get!(o, "pr_stdev", flagv!(x.pr_stdev()));
    get!(o, "cp_stdev_raw", x.cp_stdev_raw().tv());
    get!(o, "cp_stdev", flagv!(x.cp_stdev()));
    get!(o, "do_stdev_raw", x.do_stdev_raw().tv());
    get!(o, "do_stdev", flagv!(x.do_stdev()));
    get!(o, "trk_stat_raw", x.trk_stat_raw().tv());
    get!(o, "trk_stat", flagv!(x.trk_stat()));
    get!(o, "reserved3", x.reserved3().tv());
    o
}

pub fn obs_sec_uniq_id(x: &SecUniqIdRef) -> Vec<(&'static str, Val)> {
    let mut o = Vec::with_capacity(6);
    get!(o, "version", x.version().tv());
    get!(o, "reserved1", x.reserved1().tv());
    get!(o, "unique_id", x.unique_id().tv());
    o
}

pub fn observe(p: &PacketRef) -> Observed {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(x) => Observed { kind: "NavPosLlh", bytes: x.as_bytes().to_vec(), vals: obs_nav_pos_llh(x) },
        PacketRef::NavStatus(x) => Observed { kind: "NavStatus", bytes: x.as_bytes().to_vec(), vals: obs_nav_status(x) },
        PacketRef::NavDop(x) => Observed { kind: "NavDop", bytes: x.as_bytes().to_vec(), vals: obs_nav_dop(x) },
        PacketRef::NavPvt(x) => Observed { kind: "NavPvt", bytes: x.as_bytes().to_vec(), vals: obs_nav_pvt(x) },
        PacketRef::NavSolution(x) => Observed { kind: "NavSolution", bytes: x.as_bytes().to_vec(), vals: obs_nav_solution(x) },
        PacketRef::NavVelNed(x) => Observed { kind: "NavVelNed", bytes: x.as_bytes().to_vec(), vals: obs_nav_vel_ned(x) },
        PacketRef::NavHpPosLlh(x) => Observed { kind: "NavHpPosLlh", bytes: x.as_bytes().to_vec(), vals: obs_nav_hp_pos_llh(x) },
        PacketRef::NavHpPosEcef(x) => Observed { kind: "NavHpPosEcef", bytes: x.as_bytes().to_vec(), vals: obs_nav_hp_pos_ecef(x) },
        PacketRef::NavTimeUTC(x) => Observed { kind: "NavTimeUTC", bytes: x.as_bytes().to_vec(), vals: obs_nav_time_u_t_c(x) },
        PacketRef::NavTimeLs(x) => Observed { kind: "NavTimeLs", bytes: x.as_bytes().to_vec(), vals: obs_nav_time_ls(x) },
        PacketRef::NavSat(x) => Observed { kind: "NavSat", bytes: x.as_bytes().to_vec(), vals: obs_nav_sat(x) },
        PacketRef::NavEoe(x) => Observed { kind: "NavEoe", bytes: x.as_bytes().to_vec(), vals: obs_nav_eoe(x) },
        PacketRef::NavOdo(x) => Observed { kind: "NavOdo", bytes: x.as_bytes().to_vec(), vals: obs_nav_odo(x) },
        PacketRef::CfgOdo(x) => Observed { kind: "CfgOdo", bytes: x.as_bytes().to_vec(), vals: obs_cfg_odo(x) },
        PacketRef::MgaAck(x) => Observed { kind: "MgaAck", bytes: x.as_bytes().to_vec(), vals: obs_mga_ack(x) },
        PacketRef::MgaGpsIono(x) => Observed { kind: "MgaGpsIono", bytes: x.as_bytes().to_vec(), vals: obs_mga_gps_iono(x) },
        PacketRef::MgaGpsEph(x) => Observed { kind: "MgaGpsEph", bytes: x.as_bytes().to_vec(), vals: obs_mga_gps_eph(x) },
        PacketRef::MgaGloEph(x) => Observed { kind: "MgaGloEph", bytes: x.as_bytes().to_vec(), vals: obs_mga_glo_eph(x) },
        PacketRef::AlpSrv(x) => Observed { kind: "AlpSrv", bytes: x.as_bytes().to_vec(), vals: obs_alp_srv(x) },
        PacketRef::AckAck(x) => Observed { kind: "AckAck", bytes: x.as_bytes().to_vec(), vals: obs_ack_ack(x) },
        PacketRef::AckNak(x) => Observed { kind: "AckNak", bytes: x.as_bytes().to_vec(), vals: obs_ack_nak(x) },
        PacketRef::CfgItfm(x) => Observed { kind: "CfgItfm", bytes: x.as_bytes().to_vec(), vals: obs_cfg_itfm(x) },
        PacketRef::CfgPrtI2c(x) => Observed { kind: "CfgPrtI2c", bytes: x.as_bytes().to_vec(), vals: obs_cfg_prt_i2c(x) },
        PacketRef::CfgPrtSpi(x) => Observed { kind: "CfgPrtSpi", bytes: x.as_bytes().to_vec(), vals: obs_cfg_prt_spi(x) },
        PacketRef::CfgPrtUart(x) => Observed { kind: "CfgPrtUart", bytes: x.as_bytes().to_vec(), vals: obs_cfg_prt_uart(x) },
        PacketRef::CfgNav5(x) => Observed { kind: "CfgNav5", bytes: x.as_bytes().to_vec(), vals: obs_cfg_nav5(x) },
        PacketRef::CfgAnt(x) => Observed { kind: "CfgAnt", bytes: x.as_bytes().to_vec(), vals: obs_cfg_ant(x) },
        PacketRef::CfgTmode2(x) => Observed { kind: "CfgTmode2", bytes: x.as_bytes().to_vec(), vals: obs_cfg_tmode2(x) },
        PacketRef::CfgTmode3(x) => Observed { kind: "CfgTmode3", bytes: x.as_bytes().to_vec(), vals: obs_cfg_tmode3(x) },
        PacketRef::CfgTp5(x) => Observed { kind: "CfgTp5", bytes: x.as_bytes().to_vec(), vals: obs_cfg_tp5(x) },
        PacketRef::InfError(x) => Observed { kind: "InfError", bytes: x.as_bytes().to_vec(), vals: obs_inf_error(x) },
        PacketRef::InfWarning(x) => Observed { kind: "InfWarning", bytes: x.as_bytes().to_vec(), vals: obs_inf_warning(x) },
        PacketRef::InfNotice(x) => Observed { kind: "InfNotice", bytes: x.as_bytes().to_vec(), vals: obs_inf_notice(x) },
        PacketRef::InfTest(x) => Observed { kind: "InfTest", bytes: x.as_bytes().to_vec(), vals: obs_inf_test(x) },
        PacketRef::InfDebug(x) => Observed { kind: "InfDebug", bytes: x.as_bytes().to_vec(), vals: obs_inf_debug(x) },
        PacketRef::RxmRawx(x) => Observed { kind: "RxmRawx", bytes: x.as_bytes().to_vec(), vals: obs_rxm_rawx(x) },
        PacketRef::TimTp(x) => Observed { kind: "TimTp", bytes: x.as_bytes().to_vec(), vals: obs_tim_tp(x) },
        PacketRef::TimTm2(x) => Observed { kind: "TimTm2", bytes: x.as_bytes().to_vec(), vals: obs_tim_tm2(x) },
        PacketRef::MonVer(x) => Observed { kind: "MonVer", bytes: x.as_bytes().to_vec(), vals: obs_mon_ver(x) },
        PacketRef::MonGnss(x) => Observed { kind: "MonGnss", bytes: x.as_bytes().to_vec(), vals: obs_mon_gnss(x) },
        PacketRef::MonHw(x) => Observed { kind: "MonHw", bytes: x.as_bytes().to_vec(), vals: obs_mon_hw(x) },
        PacketRef::RxmRtcm(x) => Observed { kind: "RxmRtcm", bytes: x.as_bytes().to_vec(), vals: obs_rxm_rtcm(x) },
        PacketRef::EsfMeas(x) => Observed { kind: "EsfMeas", bytes: x.as_bytes().to_vec(), vals: obs_esf_meas(x) },
        PacketRef::EsfIns(x) => Observed { kind: "EsfIns", bytes: x.as_bytes().to_vec(), vals: obs_esf_ins(x) },
        PacketRef::HnrAtt(x) => Observed { kind: "HnrAtt", bytes: x.as_bytes().to_vec(), vals: obs_hnr_att(x) },
        PacketRef::HnrIns(x) => Observed { kind: "HnrIns", bytes: x.as_bytes().to_vec(), vals: obs_hnr_ins(x) },
        PacketRef::HnrPvt(x) => Observed { kind: "HnrPvt", bytes: x.as_bytes().to_vec(), vals: obs_hnr_pvt(x) },
        PacketRef::NavAtt(x) => Observed { kind: "NavAtt", bytes: x.as_bytes().to_vec(), vals: obs_nav_att(x) },
        PacketRef::NavClock(x) => Observed { kind: "NavClock", bytes: x.as_bytes().to_vec(), vals: obs_nav_clock(x) },
        PacketRef::NavVelECEF(x) => Observed { kind: "NavVelECEF", bytes: x.as_bytes().to_vec(), vals: obs_nav_vel_e_c_e_f(x) },
        PacketRef::MgaGpsEPH(x) => Observed { kind: "MgaGpsEPH", bytes: x.as_bytes().to_vec(), vals: obs_mga_gps_e_p_h(x) },
        PacketRef::RxmSfrbx(x) => Observed { kind: "RxmSfrbx", bytes: x.as_bytes().to_vec(), vals: obs_rxm_sfrbx(x) },
        PacketRef::EsfRaw(x) => Observed { kind: "EsfRaw", bytes: x.as_bytes().to_vec(), vals: obs_esf_raw(x) },
        PacketRef::TimSvin(x) => Observed { kind: "TimSvin", bytes: x.as_bytes().to_vec(), vals: obs_tim_svin(x) },
        PacketRef::SecUniqId(x) => Observed { kind: "SecUniqId", bytes: x.as_bytes().to_vec(), vals: obs_sec_uniq_id(x) },
        PacketRef::Unknown(x) => Observed { kind: "Unknown", bytes: x.payload.to_vec(), vals: vec![("class", x.class.tv()), ("msg_id", x.msg_id.tv())] },
        _ => Observed { kind: "?", bytes: vec![], vals: vec![] },
    }
}

pub fn kind_of(p: &PacketRef) -> &'static str {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(_) => "NavPosLlh",
        PacketRef::NavStatus(_) => "NavStatus",
        PacketRef::NavDop(_) => "NavDop",
        PacketRef::NavPvt(_) => "NavPvt",
        PacketRef::NavSolution(_) => "NavSolution",
        PacketRef::NavVelNed(_) => "NavVelNed",
        PacketRef::NavHpPosLlh(_) => "NavHpPosLlh",
        PacketRef::NavHpPosEcef(_) => "NavHpPosEcef",
        PacketRef::NavTimeUTC(_) => "NavTimeUTC",
        PacketRef::NavTimeLs(_) => "NavTimeLs",
        PacketRef::NavSat(_) => "NavSat",
        PacketRef::NavEoe(_) => "NavEoe",
        PacketRef::NavOdo(_) => "NavOdo",
        PacketRef::CfgOdo(_) => "CfgOdo",
        PacketRef::MgaAck(_) => "MgaAck",
        PacketRef::MgaGpsIono(_) => "MgaGpsIono",
        PacketRef::MgaGpsEph(_) => "MgaGpsEph",
        PacketRef::MgaGloEph(_) => "MgaGloEph",
        PacketRef::AlpSrv(_) => "AlpSrv",
        PacketRef::AckAck(_) => "AckAck",
        PacketRef::AckNak(_) => "AckNak",
        PacketRef::CfgItfm(_) => "CfgItfm",
        PacketRef::CfgPrtI2c(_) => "CfgPrtI2c",
        PacketRef::CfgPrtSpi(_) => "CfgPrtSpi",
        PacketRef::CfgPrtUart(_) => "CfgPrtUart",
        PacketRef::CfgNav5(_) => "CfgNav5",
        PacketRef::CfgAnt(_) => "CfgAnt",
        PacketRef::CfgTmode2(_) => "CfgTmode2",
        PacketRef::CfgTmode3(_) => "CfgTmode3",
        PacketRef::CfgTp5(_) => "CfgTp5",
        PacketRef::InfError(_) => "InfError",
        PacketRef::InfWarning(_) => "InfWarning",
        PacketRef::InfNotice(_) => "InfNotice",
        PacketRef::InfTest(_) => "InfTest",
        PacketRef::InfDebug(_) => "InfDebug",
        PacketRef::RxmRawx(_) => "RxmRawx",
        PacketRef::TimTp(_) => "TimTp",
        PacketRef::TimTm2(_) => "TimTm2",
        PacketRef::MonVer(_) => "MonVer",
        PacketRef::MonGnss(_) => "MonGnss",
        PacketRef::MonHw(_) => "MonHw",
        PacketRef::RxmRtcm(_) => "RxmRtcm",
        PacketRef::EsfMeas(_) => "EsfMeas",
        PacketRef::EsfIns(_) => "EsfIns",
        PacketRef::HnrAtt(_) => "HnrAtt",
        PacketRef::HnrIns(_) => "HnrIns",
        PacketRef::HnrPvt(_) => "HnrPvt",
        PacketRef::NavAtt(_) => "NavAtt",
        PacketRef::NavClock(_) => "NavClock",
        PacketRef::NavVelECEF(_) => "NavVelECEF",
        PacketRef::MgaGpsEPH(_) => "MgaGpsEPH",
        PacketRef::RxmSfrbx(_) => "RxmSfrbx",
        PacketRef::EsfRaw(_) => "EsfRaw",
        PacketRef::TimSvin(_) => "TimSvin",
        PacketRef::SecUniqId(_) => "SecUniqId",
        PacketRef::Unknown(_) => "Unknown",
        _ => "?",
    }
}

pub fn payload_of<'a>(p: &'a PacketRef) -> &'a [u8] {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(x) => x.as_bytes(),
        PacketRef::NavStatus(x) => x.as_bytes(),
        PacketRef::NavDop(x) => x.as_bytes(),
        PacketRef::NavPvt(x) => x.as_bytes(),
        PacketRef::NavSolution(x) => x.as_bytes(),
        PacketRef::NavVelNed(x) => x.as_bytes(),
        PacketRef::NavHpPosLlh(x) => x.as_bytes(),
        PacketRef::NavHpPosEcef(x) => x.as_bytes(),
        PacketRef::NavTimeUTC(x) => x.as_bytes(),
        PacketRef::NavTimeLs(x) => x.as_bytes(),
        PacketRef::NavSat(x) => x.as_bytes(),
        PacketRef::NavEoe(x) => x.as_bytes(),
        PacketRef::NavOdo(x) => x.as_bytes(),
        PacketRef::CfgOdo(x) => x.as_bytes(),
        PacketRef::MgaAck(x) => x.as_bytes(),
        PacketRef::MgaGpsIono(x) => x.as_bytes(),
        PacketRef::MgaGpsEph(x) => x.as_bytes(),
        PacketRef::MgaGloEph(x) => x.as_bytes(),
        PacketRef::AlpSrv(x) => x.as_bytes(),
        PacketRef::AckAck(x) => x.as_bytes(),
        PacketRef::AckNak(x) => x.as_bytes(),
        PacketRef::CfgItfm(x) => x.as_bytes(),
        PacketRef::CfgPrtI2c(x) => x.as_bytes(),
        PacketRef::CfgPrtSpi(x) => x.as_bytes(),
        PacketRef::CfgPrtUart(x) => x.as_bytes(),
        PacketRef::CfgNav5(x) => x.as_bytes(),
        PacketRef::CfgAnt(x) => x.as_bytes(),
        PacketRef::CfgTmode2(x) => x.as_bytes(),
        PacketRef::CfgTmode3(x) => x.as_bytes(),
        PacketRef::CfgTp5(x) => x.as_bytes(),
        PacketRef::InfError(x) => x.as_bytes(),
        PacketRef::InfWarning(x) => x.as_bytes(),
        PacketRef::InfNotice(x) => x.as_bytes(),
        PacketRef::InfTest(x) => x.as_bytes(),
        PacketRef::InfDebug(x) => x.as_bytes(),
        PacketRef::RxmRawx(x) => x.as_bytes(),
        PacketRef::TimTp(x) => x.as_bytes(),
        PacketRef::TimTm2(x) => x.as_bytes(),
        PacketRef::MonVer(x) => x.as_bytes(),
        PacketRef::MonGnss(x) => x.as_bytes(),
        PacketRef::MonHw(x) => x.as_bytes(),
        PacketRef::RxmRtcm(x) => x.as_bytes(),
        PacketRef::EsfMeas(x) => x.as_bytes(),
        PacketRef::EsfIns(x) => x.as_bytes(),
        PacketRef::HnrAtt(x) => x.as_bytes(),
        PacketRef::HnrIns(x) => x.as_bytes(),
        PacketRef::HnrPvt(x) => x.as_bytes(),
        PacketRef::NavAtt(x) => x.as_bytes(),
        PacketRef::NavClock(x) => x.as_bytes(),
        PacketRef::NavVelECEF(x) => x.as_bytes(),
        PacketRef::MgaGpsEPH(x) => x.as_bytes(),
        PacketRef::RxmSfrbx(x) => x.as_bytes(),
        PacketRef::EsfRaw(x) => x.as_bytes(),
        PacketRef::TimSvin(x) => x.as_bytes(),
        PacketRef::SecUniqId(x) => x.as_bytes(),
        PacketRef::Unknown(x) => x.payload,
        _ => &[],
    }
}

/// Serializes the inner packet (not through the envelope).
#[cfg(feature = "serde")]
pub fn inner_json(p: &PacketRef) -> Result<String, serde_json::Error> {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(x) => serde_json::to_string(x),
        PacketRef::NavStatus(x) => serde_json::to_string(x),
        PacketRef::NavDop(x) => serde_json::to_string(x),
        PacketRef::NavPvt(x) => serde_json::to_string(x),
        PacketRef::NavSolution(x) => serde_json::to_string(x),
        PacketRef::NavVelNed(x) => serde_json::to_string(x),
        PacketRef::NavHpPosLlh(x) => serde_json::to_string(x),
        PacketRef::NavHpPosEcef(x) => serde_json::to_string(x),
        PacketRef::NavTimeUTC(x) => serde_json::to_string(x),
        PacketRef::NavTimeLs(x) => serde_json::to_string(x),
        PacketRef::NavSat(x) => serde_json::to_string(x),
        PacketRef::NavEoe(x) => serde_json::to_string(x),
        PacketRef::NavOdo(x) => serde_json::to_string(x),
        PacketRef::CfgOdo(x) => serde_json::to_string(x),
        PacketRef::MgaAck(x) => serde_json::to_string(x),
        PacketRef::MgaGpsIono(x) => serde_json::to_string(x),
        PacketRef::MgaGpsEph(x) => serde_json::to_string(x),
        PacketRef::MgaGloEph(x) => serde_json::to_string(x),
        PacketRef::AlpSrv(x) => serde_json::to_string(x),
        PacketRef::AckAck(x) => serde_json::to_string(x),
        PacketRef::AckNak(x) => serde_json::to_string(x),
        PacketRef::CfgItfm(x) => serde_json::to_string(x),
        PacketRef::CfgPrtI2c(x) => serde_json::to_string(x),
        PacketRef::CfgPrtSpi(x) => serde_json::to_string(x),
        PacketRef::CfgPrtUart(x) => serde_json::to_string(x),
        PacketRef::CfgNav5(x) => serde_json::to_string(x),
        PacketRef::CfgAnt(x) => serde_json::to_string(x),
        PacketRef::CfgTmode2(x) => serde_json::to_string(x),
        PacketRef::CfgTmode3(x) => serde_json::to_string(x),
        PacketRef::CfgTp5(x) => serde_json::to_string(x),
        PacketRef::InfError(x) => serde_json::to_string(x),
        PacketRef::InfWarning(x) => serde_json::to_string(x),
        PacketRef::InfNotice(x) => serde_json::to_string(x),
        PacketRef::InfTest(x) => serde_json::to_string(x),
        PacketRef::InfDebug(x) => serde_json::to_string(x),
        PacketRef::RxmRawx(x) => serde_json::to_string(x),
        PacketRef::TimTp(x) => serde_json::to_string(x),
        PacketRef::TimTm2(x) => serde_json::to_string(x),
        PacketRef::MonVer(x) => serde_json::to_string(x),
        PacketRef::MonGnss(x) => serde_json::to_string(x),
        PacketRef::MonHw(x) => serde_json::to_string(x),
        PacketRef::RxmRtcm(x) => serde_json::to_string(x),
        PacketRef::EsfMeas(x) => serde_json::to_string(x),
        PacketRef::EsfIns(x) => serde_json::to_string(x),
        PacketRef::HnrAtt(x) => serde_json::to_string(x),
        PacketRef::HnrIns(x) => serde_json::to_string(x),
        PacketRef::HnrPvt(x) => serde_json::to_string(x),
        PacketRef::NavAtt(x) => serde_json::to_string(x),
        PacketRef::NavClock(x) => serde_json::to_string(x),
        PacketRef::NavVelECEF(x) => serde_json::to_string(x),
        PacketRef::MgaGpsEPH(x) => serde_json::to_string(x),
        PacketRef::RxmSfrbx(x) => serde_json::to_string(x),
        PacketRef::EsfRaw(x) => serde_json::to_string(x),
        PacketRef::TimSvin(x) => serde_json::to_string(x),
        PacketRef::SecUniqId(x) => serde_json::to_string(x),
        PacketRef::Unknown(x) => serde_json::to_string(x),
        _ => Ok(String::new()),
    }
}

fn dbg_nav_pos_llh(x: &NavPosLlhRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavPosLlh")
        .field("itow", &x.itow())
        .field("lon", &x.lon_degrees())
        .field("lat", &x.lat_degrees())
        .field("height_meters", &x.height_meters())
        .field("height_msl", &x.height_msl())
        .field("h_ack", &x.h_ack())
        .field("v_acc", &x.v_acc())
        .finish()
}

fn dbg_nav_vel_ned(x: &NavVelNedRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavVelNed")
        .field("itow", &x.itow())
        .field("vel_north", &x.vel_north())
        .field("vel_east", &x.vel_east())
        .field("vel_down", &x.vel_down())
        .field("speed_3d", &x.speed_3d())
        .field("ground_speed", &x.ground_speed())
        .field("heading", &x.heading_degrees())
        .field("speed_accuracy_estimate", &x.speed_accuracy_estimate())
        .field("course_heading_accuracy_estimate", &x.course_heading_accuracy_estimate())
        .finish()
}

fn dbg_nav_hp_pos_llh(x: &NavHpPosLlhRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavHpPosLlh")
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("itow", &x.itow())
        .field("lon", &x.lon_degrees())
        .field("lat", &x.lat_degrees())
        .field("height_meters", &x.height_meters())
        .field("height_msl", &x.height_msl())
        .field("lon_hp", &x.lon_hp_degrees())
        .field("lat_hp", &x.lat_hp_degrees())
        .field("height_hp_meters", &x.height_hp_meters())
        .field("height_hp_msl", &x.height_hp_msl())
        .field("horizontal_accuracy", &x.horizontal_accuracy())
        .field("vertical_accuracy", &x.vertical_accuracy())
        .finish()
}

fn dbg_nav_hp_pos_ecef(x: &NavHpPosEcefRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavHpPosEcef")
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("itow", &x.itow())
        .field("ecef_x", &x.ecef_x_cm())
        .field("ecef_y", &x.ecef_y_cm())
        .field("ecef_z", &x.ecef_z_cm())
        .field("ecef_x_hp", &x.ecef_x_hp_mm())
        .field("ecef_y_hp", &x.ecef_y_hp_mm())
        .field("ecef_z_hp", &x.ecef_z_hp_mm())
        .field("flags", &x.flags())
        .field("p_acc", &x.p_acc())
        .finish()
}

fn dbg_nav_pvt(x: &NavPvtRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavPvt")
        .field("itow", &x.itow())
        .field("year", &x.year())
        .field("month", &x.month())
        .field("day", &x.day())
        .field("hour", &x.hour())
        .field("min", &x.min())
        .field("sec", &x.sec())
        .field("valid", &x.valid())
        .field("time_accuracy", &x.time_accuracy())
        .field("nanosecond", &x.nanosecond())
        .field("fix_type", &x.fix_type())
        .field("flags", &x.flags())
        .field("flags2", &x.flags2())
        .field("num_satellites", &x.num_satellites())
        .field("lon", &x.lon_degrees())
        .field("lat", &x.lat_degrees())
        .field("height_meters", &x.height_meters())
        .field("height_msl", &x.height_msl())
        .field("horiz_accuracy", &x.horiz_accuracy())
        .field("vert_accuracy", &x.vert_accuracy())
        .field("vel_north", &x.vel_north())
        .field("vel_east", &x.vel_east())
        .field("vel_down", &x.vel_down())
        .field("ground_speed", &x.ground_speed())
        .field("heading", &x.heading_degrees())
        .field("speed_accuracy_estimate", &x.speed_accuracy_estimate())
        .field("heading_accuracy_estimate", &x.heading_accuracy_estimate())
        .field("pdop", &x.pdop())
        .field("reserved1", &x.reserved1())
        .field("heading_of_vehicle", &x.heading_of_vehicle_degrees())
        .field("magnetic_declination", &x.magnetic_declination_degrees())
        .field("magnetic_declination_accuracy", &x.magnetic_declination_accuracy_degrees())
        .finish()
}

fn dbg_nav_status(x: &NavStatusRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavStatus")
        .field("itow", &x.itow())
        .field("fix_type", &x.fix_type())
        .field("flags", &x.flags())
        .field("fix_stat", &crate::obs::dbg_fix_status_info(x.fix_stat()))
        .field("flags2", &x.flags2())
        .field("time_to_first_fix", &x.time_to_first_fix())
        .field("uptime_ms", &x.uptime_ms())
        .finish()
}

fn dbg_nav_dop(x: &NavDopRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavDop")
        .field("itow", &x.itow())
        .field("geometric_dop", &x.geometric_dop())
        .field("position_dop", &x.position_dop())
        .field("time_dop", &x.time_dop())
        .field("vertical_dop", &x.vertical_dop())
        .field("horizontal_dop", &x.horizontal_dop())
        .field("northing_dop", &x.northing_dop())
        .field("easting_dop", &x.easting_dop())
        .finish()
}

fn dbg_nav_eoe(x: &NavEoeRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavEoe")
        .field("itow", &x.itow())
        .finish()
}

fn dbg_nav_solution(x: &NavSolutionRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavSolution")
        .field("itow", &x.itow())
        .field("ftow_ns", &x.ftow_ns())
        .field("week", &x.week())
        .field("fix_type", &x.fix_type())
        .field("flags", &x.flags())
        .field("ecef_x", &x.ecef_x())
        .field("ecef_y", &x.ecef_y())
        .field("ecef_z", &x.ecef_z())
        .field("position_accuracy_estimate", &x.position_accuracy_estimate())
        .field("ecef_vx", &x.ecef_vx())
        .field("ecef_vy", &x.ecef_vy())
        .field("ecef_vz", &x.ecef_vz())
        .field("speed_accuracy_estimate", &x.speed_accuracy_estimate())
        .field("pdop", &x.pdop())
        .field("reserved1", &x.reserved1())
        .field("num_sv", &x.num_sv())
        .field("reserved2", &x.reserved2())
        .finish()
}

fn dbg_nav_sat_sv_info(x: &NavSatSvInfoRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavSatSvInfo")
        .field("gnss_id", &x.gnss_id())
        .field("sv_id", &x.sv_id())
        .field("cno", &x.cno())
        .field("elev", &x.elev())
        .field("azim", &x.azim())
        .field("pr_res", &x.pr_res())
        .field("flags", &crate::obs::dbg_nav_sat_sv_flags(x.flags()))
        .finish()
}

fn dbg_nav_sat(x: &NavSatRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavSat")
        .field("itow", &x.itow())
        .field("version", &x.version())
        .field("num_svs", &x.num_svs())
        .field("reserved", &x.reserved())
        .field("svs", &x.svs())
        .finish()
}

fn dbg_nav_odo(x: &NavOdoRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavOdo")
        .field("version", &x.version())
        .field("reserved", &x.reserved())
        .field("itow", &x.itow())
        .field("distance", &x.distance())
        .field("total_distance", &x.total_distance())
        .field("distance_std", &x.distance_std())
        .finish()
}

fn dbg_cfg_odo(x: &CfgOdoRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgOdo")
        .field("version", &x.version())
        .field("reserved", &x.reserved())
        .field("flags", &x.flags())
        .field("odo_cfg", &x.odo_cfg())
        .field("reserved2", &x.reserved2())
        .field("cog_max_speed", &x.cog_max_speed())
        .field("cog_max_pos_acc", &x.cog_max_pos_acc())
        .field("reserved3", &x.reserved3())
        .field("vel_lp_gain", &x.vel_lp_gain())
        .field("cog_lp_gain", &x.cog_lp_gain())
        .field("reserved4", &x.reserved4())
        .finish()
}

fn dbg_cfg_itfm(x: &CfgItfmRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgItfm")
        .field("config", &x.config())
        .field("config2", &x.config2())
        .finish()
}

fn dbg_cfg_inf(x: &CfgInfRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgInf")
        .field("protocol_id", &x.protocol_id())
        .field("reserved", &x.reserved())
        .field("inf_msg_mask_0", &x.inf_msg_mask_0())
        .field("inf_msg_mask_1", &x.inf_msg_mask_1())
        .field("inf_msg_mask_2", &x.inf_msg_mask_2())
        .field("inf_msg_mask_3", &x.inf_msg_mask_3())
        .field("inf_msg_mask_4", &x.inf_msg_mask_4())
        .field("inf_msg_mask_5", &x.inf_msg_mask_5())
        .finish()
}

fn dbg_inf_error(x: &InfErrorRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("InfError")
        .field("message", &x.message())
        .finish()
}

fn dbg_inf_notice(x: &InfNoticeRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("InfNotice")
        .field("message", &x.message())
        .finish()
}

fn dbg_inf_test(x: &InfTestRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("InfTest")
        .field("message", &x.message())
        .finish()
}

fn dbg_inf_warning(x: &InfWarningRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("InfWarning")
        .field("message", &x.message())
        .finish()
}

fn dbg_inf_debug(x: &InfDebugRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("InfDebug")
        .field("message", &x.message())
        .finish()
}

fn dbg_alp_srv(x: &AlpSrvRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("AlpSrv")
        .field("id_size", &x.id_size())
        .field("data_type", &x.data_type())
        .field("offset", &x.offset())
        .field("size", &x.size())
        .field("file_id", &x.file_id())
        .field("data_size", &x.data_size())
        .field("id1", &x.id1())
        .field("id2", &x.id2())
        .field("id3", &x.id3())
        .finish()
}

fn dbg_ack_ack(x: &AckAckRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("AckAck")
        .field("class", &x.class())
        .field("msg_id", &x.msg_id())
        .finish()
}

fn dbg_ack_nak(x: &AckNakRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("AckNak")
        .field("class", &x.class())
        .field("msg_id", &x.msg_id())
        .finish()
}

fn dbg_cfg_ant(x: &CfgAntRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgAnt")
        .field("flags", &x.flags())
        .field("pins", &x.pins())
        .finish()
}

fn dbg_cfg_tp5(x: &CfgTp5Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgTp5")
        .field("tp_idx", &x.tp_idx())
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("ant_cable_delay", &x.ant_cable_delay())
        .field("rf_group_delay", &x.rf_group_delay())
        .field("freq_period", &x.freq_period())
        .field("freq_period_lock", &x.freq_period_lock())
        .field("pulse_len_ratio", &x.pulse_len_ratio())
        .field("pulse_len_ratio_lock", &x.pulse_len_ratio_lock())
        .field("user_delay", &x.user_delay())
        .field("flags", &x.flags())
        .finish()
}

fn dbg_cfg_tmode2(x: &CfgTmode2Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgTmode2")
        .field("time_transfer_mode", &x.time_transfer_mode())
        .field("reserved1", &x.reserved1())
        .field("flags", &x.flags())
        .field("ecef_x_or_lat", &x.ecef_x_or_lat())
        .field("ecef_y_or_lon", &x.ecef_y_or_lon())
        .field("ecef_z_or_alt", &x.ecef_z_or_alt())
        .field("fixed_pos_acc", &x.fixed_pos_acc())
        .field("survey_in_min_duration", &x.survey_in_min_duration())
        .field("survery_in_accur_limit", &x.survery_in_accur_limit())
        .finish()
}

fn dbg_tim_svin(x: &TimSvinRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("TimSvin")
        .field("dur", &x.dur())
        .field("mean_x", &x.mean_x())
        .field("mean_y", &x.mean_y())
        .field("mean_z", &x.mean_z())
        .field("mean_v", &x.mean_v())
        .field("obs", &x.obs())
        .field("valid", &x.valid())
        .field("active", &x.active())
        .field("reserved", &x.reserved())
        .finish()
}

fn dbg_nav_time_ls(x: &NavTimeLsRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavTimeLs")
        .field("itow", &x.itow())
        .field("version", &x.version())
        .field("reserved_1", &x.reserved_1())
        .field("src_of_curr_ls", &x.src_of_curr_ls())
        .field("current_ls", &x.current_ls())
        .field("src_of_ls_change", &x.src_of_ls_change())
        .field("ls_change", &x.ls_change())
        .field("time_to_ls_event", &x.time_to_ls_event())
        .field("date_of_ls_gps_wn", &x.date_of_ls_gps_wn())
        .field("date_of_ls_gps_dn", &x.date_of_ls_gps_dn())
        .field("reserved_2", &x.reserved_2())
        .field("valid", &x.valid())
        .finish()
}

fn dbg_cfg_tmode3(x: &CfgTmode3Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgTmode3")
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("rcvr_mode", &x.rcvr_mode())
        .field("flags", &x.flags())
        .field("ecef_x_or_lat", &x.ecef_x_or_lat())
        .field("ecef_y_or_lon", &x.ecef_y_or_lon())
        .field("ecef_z_or_alt", &x.ecef_z_or_alt())
        .field("ecef_x_or_lat_hp", &x.ecef_x_or_lat_hp())
        .field("ecef_y_or_lon_hp", &x.ecef_y_or_lon_hp())
        .field("ecef_z_or_alt_hp", &x.ecef_z_or_alt_hp())
        .field("reserved2", &x.reserved2())
        .field("fixed_pos_acc", &x.fixed_pos_acc())
        .field("sv_in_min_duration", &x.sv_in_min_duration())
        .field("sv_in_accur_limit", &x.sv_in_accur_limit())
        .field("reserved3", &x.reserved3())
        .finish()
}

fn dbg_cfg_prt_i2c(x: &CfgPrtI2cRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgPrtI2c")
        .field("portid", &x.portid())
        .field("reserved1", &x.reserved1())
        .field("tx_ready", &x.tx_ready())
        .field("mode", &x.mode())
        .field("reserved2", &x.reserved2())
        .field("in_proto_mask", &x.in_proto_mask())
        .field("out_proto_mask", &x.out_proto_mask())
        .field("flags", &x.flags())
        .field("reserved3", &x.reserved3())
        .finish()
}

fn dbg_cfg_prt_uart(x: &CfgPrtUartRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgPrtUart")
        .field("portid", &x.portid())
        .field("reserved0", &x.reserved0())
        .field("tx_ready", &x.tx_ready())
        .field("mode", &x.mode())
        .field("baud_rate", &x.baud_rate())
        .field("in_proto_mask", &x.in_proto_mask())
        .field("out_proto_mask", &x.out_proto_mask())
        .field("flags", &x.flags())
        .field("reserved5", &x.reserved5())
        .finish()
}

fn dbg_cfg_prt_spi(x: &CfgPrtSpiRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgPrtSpi")
        .field("portid", &x.portid())
        .field("reserved0", &x.reserved0())
        .field("tx_ready", &x.tx_ready())
        .field("mode", &x.mode())
        .field("reserved3", &x.reserved3())
        .field("in_proto_mask", &x.in_proto_mask())
        .field("out_proto_mask", &x.out_proto_mask())
        .field("flags", &x.flags())
        .field("reserved5", &x.reserved5())
        .finish()
}

fn dbg_nav_time_u_t_c(x: &NavTimeUTCRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavTimeUTC")
        .field("itow", &x.itow())
        .field("time_accuracy_estimate_ns", &x.time_accuracy_estimate_ns())
        .field("nanos", &x.nanos())
        .field("year", &x.year())
        .field("month", &x.month())
        .field("day", &x.day())
        .field("hour", &x.hour())
        .field("min", &x.min())
        .field("sec", &x.sec())
        .field("valid", &x.valid())
        .finish()
}

fn dbg_cfg_nav5(x: &CfgNav5Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgNav5")
        .field("mask", &x.mask())
        .field("dyn_model", &x.dyn_model())
        .field("fix_mode", &x.fix_mode())
        .field("fixed_alt", &x.fixed_alt())
        .field("fixed_alt_var", &x.fixed_alt_var())
        .field("min_elev_degrees", &x.min_elev_degrees())
        .field("dr_limit", &x.dr_limit())
        .field("pdop", &x.pdop())
        .field("tdop", &x.tdop())
        .field("pacc", &x.pacc())
        .field("tacc", &x.tacc())
        .field("static_hold_thresh", &x.static_hold_thresh())
        .field("dgps_time_out", &x.dgps_time_out())
        .field("cno_thresh_num_svs", &x.cno_thresh_num_svs())
        .field("cno_thresh", &x.cno_thresh())
        .field("reserved1", &x.reserved1())
        .field("static_hold_max_dist", &x.static_hold_max_dist())
        .field("utc_standard", &x.utc_standard())
        .field("reserved2", &x.reserved2())
        .finish()
}

fn dbg_cfg_nav_x5(x: &CfgNavX5Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("CfgNavX5")
        .field("version", &x.version())
        .field("mask1", &x.mask1())
        .field("mask2", &x.mask2())
        .field("reserved1", &x.reserved1())
        .field("min_svs", &x.min_svs())
        .field("max_svs", &x.max_svs())
        .field("min_cno_dbhz", &x.min_cno_dbhz())
        .field("reserved2", &x.reserved2())
        .field("ini_fix_3d", &x.ini_fix_3d())
        .field("reserved3", &x.reserved3())
        .field("ack_aiding", &x.ack_aiding())
        .field("wkn_rollover", &x.wkn_rollover())
        .field("sig_atten_comp_mode", &x.sig_atten_comp_mode())
        .field("reserved4", &x.reserved4())
        .field("reserved5", &x.reserved5())
        .field("reserved6", &x.reserved6())
        .field("use_ppp", &x.use_ppp())
        .field("aop_cfg", &x.aop_cfg())
        .field("reserved7", &x.reserved7())
        .field("aop_orb_max_err", &x.aop_orb_max_err())
        .field("reserved8", &x.reserved8())
        .field("reserved9", &x.reserved9())
        .field("use_adr", &x.use_adr())
        .finish()
}

fn dbg_mga_ack(x: &MgaAckRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MgaAck")
        .field("ack_type", &x.ack_type())
        .field("version", &x.version())
        .field("info_code", &x.info_code())
        .field("msg_id", &x.msg_id())
        .field("msg_payload_start", &x.msg_payload_start())
        .finish()
}

fn dbg_mga_glo_eph(x: &MgaGloEphRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MgaGloEph")
        .field("msg_type", &x.msg_type())
        .field("version", &x.version())
        .field("sv_id", &x.sv_id())
        .field("reserved1", &x.reserved1())
        .field("ft", &x.ft())
        .field("b", &x.b())
        .field("m", &x.m())
        .field("h", &x.h())
        .field("x", &x.x())
        .field("y", &x.y())
        .field("z", &x.z())
        .field("dx", &x.dx())
        .field("dy", &x.dy())
        .field("dz", &x.dz())
        .field("ddx", &x.ddx())
        .field("ddy", &x.ddy())
        .field("ddz", &x.ddz())
        .field("tb", &x.tb())
        .field("gamma", &x.gamma())
        .field("e", &x.e())
        .field("delta_tau", &x.delta_tau())
        .field("tau", &x.tau())
        .field("reserved2", &x.reserved2())
        .finish()
}

fn dbg_mga_gps_iono(x: &MgaGpsIonoRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MgaGpsIono")
        .field("msg_type", &x.msg_type())
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("alpha0", &x.alpha0())
        .field("alpha1", &x.alpha1())
        .field("alpha2", &x.alpha2())
        .field("alpha3", &x.alpha3())
        .field("beta0", &x.beta0())
        .field("beta1", &x.beta1())
        .field("beta2", &x.beta2())
        .field("beta3", &x.beta3())
        .field("reserved2", &x.reserved2())
        .finish()
}

fn dbg_mga_gps_eph(x: &MgaGpsEphRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MgaGpsEph")
        .field("msg_type", &x.msg_type())
        .field("version", &x.version())
        .field("sv_id", &x.sv_id())
        .field("reserved1", &x.reserved1())
        .field("fit_interval", &x.fit_interval())
        .field("ura_index", &x.ura_index())
        .field("sv_health", &x.sv_health())
        .field("tgd", &x.tgd())
        .field("iodc", &x.iodc())
        .field("toc", &x.toc())
        .field("reserved2", &x.reserved2())
        .field("af2", &x.af2())
        .field("af1", &x.af1())
        .field("af0", &x.af0())
        .field("crs", &x.crs())
        .field("delta_n", &x.delta_n())
        .field("m0", &x.m0())
        .field("cuc", &x.cuc())
        .field("cus", &x.cus())
        .field("e", &x.e())
        .field("sqrt_a", &x.sqrt_a())
        .field("toe", &x.toe())
        .field("cic", &x.cic())
        .field("omega0", &x.omega0())
        .field("cis", &x.cis())
        .field("crc", &x.crc())
        .field("i0", &x.i0())
        .field("omega", &x.omega())
        .field("omega_dot", &x.omega_dot())
        .field("idot", &x.idot())
        .field("reserved3", &x.reserved3())
        .finish()
}

fn dbg_tim_tp(x: &TimTpRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("TimTp")
        .field("tow_ms", &x.tow_ms())
        .field("tow_sub_ms", &x.tow_sub_ms())
        .field("q_err", &x.q_err())
        .field("week", &x.week())
        .field("flags", &x.flags())
        .field("ref_info", &x.ref_info())
        .finish()
}

fn dbg_tim_tm2(x: &TimTm2Ref, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("TimTm2")
        .field("ch", &x.ch())
        .field("flags", &x.flags())
        .field("count", &x.count())
        .field("wn_r", &x.wn_r())
        .field("wn_f", &x.wn_f())
        .field("tow_ms_r", &x.tow_ms_r())
        .field("tow_sub_ms_r", &x.tow_sub_ms_r())
        .field("tow_ms_f", &x.tow_ms_f())
        .field("tow_sub_ms_f", &x.tow_sub_ms_f())
        .field("acc_est", &x.acc_est())
        .finish()
}

fn dbg_rxm_rawx(x: &RxmRawxRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("RxmRawx")
        .field("rcv_tow", &x.rcv_tow())
        .field("week", &x.week())
        .field("leap_s", &x.leap_s())
        .field("num_meas", &x.num_meas())
        .field("rec_stat", &x.rec_stat())
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("measurements", &x.measurements())
        .finish()
}

fn dbg_mon_hw(x: &MonHwRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MonHw")
        .field("pin_sel", &x.pin_sel())
        .field("pin_bank", &x.pin_bank())
        .field("pin_dir", &x.pin_dir())
        .field("pin_val", &x.pin_val())
        .field("noise_per_ms", &x.noise_per_ms())
        .field("agc_cnt", &x.agc_cnt())
        .field("a_status", &x.a_status())
        .field("a_power", &x.a_power())
        .field("flags", &x.flags())
        .field("reserved1", &x.reserved1())
        .field("used_mask", &x.used_mask())
        .field("vp", &x.vp())
        .field("jam_ind", &x.jam_ind())
        .field("reserved2", &x.reserved2())
        .field("pin_irq", &x.pin_irq())
        .field("pull_h", &x.pull_h())
        .field("pull_l", &x.pull_l())
        .finish()
}

fn dbg_mon_gnss(x: &MonGnssRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MonGnss")
        .field("version", &x.version())
        .field("supported", &x.supported())
        .field("default", &x.default())
        .field("enabled", &x.enabled())
        .field("simultaneous", &x.simultaneous())
        .field("reserved1", &x.reserved1())
        .finish()
}

fn dbg_mon_ver(x: &MonVerRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MonVer")
        .field("software_version", &x.software_version())
        .field("hardware_version", &x.hardware_version())
        .field("extension", &x.extension())
        .finish()
}

fn dbg_rxm_rtcm(x: &RxmRtcmRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("RxmRtcm")
        .field("version", &x.version())
        .field("flags", &x.flags())
        .field("sub_type", &x.sub_type())
        .field("ref_station", &x.ref_station())
        .field("msg_type", &x.msg_type())
        .finish()
}

fn dbg_esf_meas(x: &EsfMeasRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("EsfMeas")
        .field("time_tag", &x.time_tag())
        .field("flags", &x.flags())
        .field("id", &x.id())
        .field("data", &x.data())
        .field("calib_tag", &x.calib_tag())
        .finish()
}

fn dbg_esf_raw(x: &EsfRawRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("EsfRaw")
        .field("msss", &x.msss())
        .field("data", &x.data())
        .finish()
}

fn dbg_esf_ins(x: &EsfInsRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("EsfIns")
        .field("bit_field", &x.bit_field())
        .field("reserved", &x.reserved())
        .field("itow", &x.itow())
        .field("x_ang_rate", &x.x_angular_rate())
        .field("y_ang_rate", &x.y_angular_rate())
        .field("z_ang_rate", &x.z_angular_rate())
        .field("x_accel", &x.x_acceleration())
        .field("y_accel", &x.y_acceleration())
        .field("z_accel", &x.z_acceleration())
        .finish()
}

fn dbg_hnr_att(x: &HnrAttRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("HnrAtt")
        .field("itow", &x.itow())
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("roll", &x.vehicle_roll())
        .field("pitch", &x.vehicle_pitch())
        .field("heading", &x.vehicle_heading())
        .field("acc_roll", &x.vehicle_roll_accuracy())
        .field("acc_pitch", &x.vehicle_pitch_accuracy())
        .field("acc_heading", &x.vehicle_heading_accuracy())
        .finish()
}

fn dbg_hnr_ins(x: &HnrInsRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("HnrIns")
        .field("bit_field", &x.bit_field())
        .field("reserved", &x.reserved())
        .field("itow", &x.itow())
        .field("x_ang_rate", &x.x_angular_rate())
        .field("y_ang_rate", &x.y_angular_rate())
        .field("z_ang_rate", &x.z_angular_rate())
        .field("x_accel", &x.x_acceleration())
        .field("y_accel", &x.y_acceleration())
        .field("z_accel", &x.z_acceleration())
        .finish()
}

fn dbg_hnr_pvt(x: &HnrPvtRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("HnrPvt")
        .field("itow", &x.itow())
        .field("year", &x.year())
        .field("month", &x.month())
        .field("day", &x.day())
        .field("hour", &x.hour())
        .field("min", &x.min())
        .field("sec", &x.sec())
        .field("valid", &x.valid())
        .field("nano", &x.nano())
        .field("gps_fix", &x.gps_fix())
        .field("flags", &x.flags())
        .field("reserved1", &x.reserved1())
        .field("lon", &x.longitude())
        .field("lat", &x.latitude())
        .field("height", &x.height_above_ellipsoid())
        .field("height_msl", &x.height_msl())
        .field("g_speed", &x.ground_speed_2d())
        .field("speed", &x.speed_3d())
        .field("head_mot", &x.heading_motion())
        .field("head_veh", &x.heading_vehicle())
        .field("h_acc", &x.h_acc())
        .field("v_acc", &x.v_acc())
        .field("s_acc", &x.s_acc())
        .field("head_acc", &x.heading_accurracy())
        .field("reserved2", &x.reserved2())
        .finish()
}

fn dbg_nav_att(x: &NavAttRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavAtt")
        .field("itow", &x.itow())
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("roll", &x.vehicle_roll())
        .field("pitch", &x.vehicle_pitch())
        .field("heading", &x.vehicle_heading())
        .field("acc_roll", &x.vehicle_roll_accuracy())
        .field("acc_pitch", &x.vehicle_pitch_accuracy())
        .field("acc_heading", &x.vehicle_heading_accuracy())
        .finish()
}

fn dbg_nav_clock(x: &NavClockRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavClock")
        .field("itow", &x.itow())
        .field("clk_b", &x.clk_b())
        .field("clk_d", &x.clk_d())
        .field("t_acc", &x.t_acc())
        .field("f_acc", &x.f_acc())
        .finish()
}

fn dbg_rxm_sfrbx(x: &RxmSfrbxRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("RxmSfrbx")
        .field("gnss_id", &x.gnss_id())
        .field("sv_id", &x.sv_id())
        .field("reserved1", &x.reserved1())
        .field("freq_id", &x.freq_id())
        .field("num_words", &x.num_words())
        .field("reserved2", &x.reserved2())
        .field("version", &x.version())
        .field("reserved3", &x.reserved3())
        .field("dwrd", &x.dwrd())
        .finish()
}

fn dbg_nav_vel_e_c_e_f(x: &NavVelECEFRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("NavVelECEF")
        .field("itow", &x.itow())
        .field("ecef_vx", &x.ecef_vx())
        .field("ecef_vy", &x.ecef_vy())
        .field("ecef_vz", &x.ecef_vz())
        .field("s_acc", &x.s_acc())
        .finish()
}

fn dbg_mga_gps_e_p_h(x: &MgaGpsEPHRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("MgaGpsEPH")
        .field("msg_type", &x.msg_type())
        .field("version", &x.version())
        .field("sv_id", &x.sv_id())
        .field("reserved1", &x.reserved1())
        .field("fit_interval", &x.fit_interval())
        .field("ura_index", &x.ura_index())
        .field("sv_health", &x.sv_health())
        .field("tgd", &x.tgd())
        .field("iodc", &x.iodc())
        .field("toc", &x.toc())
        .field("reserved2", &x.reserved2())
        .field("af2", &x.af2())
        .field("afl", &x.afl())
        .field("af0", &x.af0())
        .field("crs", &x.crs())
        .field("delta_n", &x.delta_n())
        .field("m0", &x.m0())
        .field("cuc", &x.cuc())
        .field("cus", &x.cus())
        .field("e", &x.e())
        .field("sqrt_a", &x.sqrt_a())
        .field("toe", &x.toe())
        .field("cic", &x.cic())
        .field("omega0", &x.omega0())
        .field("cis", &x.cis())
        .field("crc", &x.crc())
        .field("i0", &x.i0())
        .field("omega", &x.omega())
        .field("omega_dot", &x.omega_dot())
        .field("idot", &x.idot())
        .field("reserved3", &x.reserved3())
        .finish()
}

fn dbg_rxm_rawx_info(x: &RxmRawxInfoRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("RxmRawxInfo")
        .field("pr_mes", &x.pr_mes())
        .field("cp_mes", &x.cp_mes())
        .field("do_mes", &x.do_mes())
        .field("gnss_id", &x.gnss_id())
        .field("sv_id", &x.sv_id())
        .field("reserved2", &x.reserved2())
        .field("freq_id", &x.freq_id())
        .field("lock_time", &x.lock_time())
        .field("cno", &x.cno())
        .field("pr_stdev", &x.pr_stdev())
        .field("cp_stdev", &x.cp_stdev())
        .field("do_stdev", &x.do_stdev())
        .field("trk_stat", &x.trk_stat())
        .field("reserved3", &x.reserved3())
        .finish()
}

fn dbg_sec_uniq_id(x: &SecUniqIdRef, f: &mut std::fmt::Formatter) -> std::fmt::Result {
    f.debug_struct("SecUniqId")
        .field("version", &x.version())
        .field("reserved1", &x.reserved1())
        .field("unique_id", &x.unique_id())
        .finish()
}

pub struct DebugOf<'a, 'b>(pub &'a PacketRef<'b>);
impl std::fmt::Debug for DebugOf<'_, '_> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        #[allow(unreachable_patterns)]
        match self.0 {
            PacketRef::NavPosLlh(x) => f.debug_tuple("NavPosLlh").field(&Of(x, dbg_nav_pos_llh)).finish(),
            PacketRef::NavStatus(x) => f.debug_tuple("NavStatus").field(&Of(x, dbg_nav_status)).finish(),
            PacketRef::NavDop(x) => f.debug_tuple("NavDop").field(&Of(x, dbg_nav_dop)).finish(),
            PacketRef::NavPvt(x) => f.debug_tuple("NavPvt").field(&Of(x, dbg_nav_pvt)).finish(),
            PacketRef::NavSolution(x) => f.debug_tuple("NavSolution").field(&Of(x, dbg_nav_solution)).finish(),
            PacketRef::NavVelNed(x) => f.debug_tuple("NavVelNed").field(&Of(x, dbg_nav_vel_ned)).finish(),
            PacketRef::NavHpPosLlh(x) => f.debug_tuple("NavHpPosLlh").field(&Of(x, dbg_nav_hp_pos_llh)).finish(),
            PacketRef::NavHpPosEcef(x) => f.debug_tuple("NavHpPosEcef").field(&Of(x, dbg_nav_hp_pos_ecef)).finish(),
            PacketRef::NavTimeUTC(x) => f.debug_tuple("NavTimeUTC").field(&Of(x, dbg_nav_time_u_t_c)).finish(),
            PacketRef::NavTimeLs(x) => f.debug_tuple("NavTimeLs").field(&Of(x, dbg_nav_time_ls)).finish(),
            PacketRef::NavSat(x) => f.debug_tuple("NavSat").field(&Of(x, dbg_nav_sat)).finish(),
            PacketRef::NavEoe(x) => f.debug_tuple("NavEoe").field(&Of(x, dbg_nav_eoe)).finish(),
            PacketRef::NavOdo(x) => f.debug_tuple("NavOdo").field(&Of(x, dbg_nav_odo)).finish(),
            PacketRef::CfgOdo(x) => f.debug_tuple("CfgOdo").field(&Of(x, dbg_cfg_odo)).finish(),
            PacketRef::MgaAck(x) => f.debug_tuple("MgaAck").field(&Of(x, dbg_mga_ack)).finish(),
            PacketRef::MgaGpsIono(x) => f.debug_tuple("MgaGpsIono").field(&Of(x, dbg_mga_gps_iono)).finish(),
            PacketRef::MgaGpsEph(x) => f.debug_tuple("MgaGpsEph").field(&Of(x, dbg_mga_gps_eph)).finish(),
            PacketRef::MgaGloEph(x) => f.debug_tuple("MgaGloEph").field(&Of(x, dbg_mga_glo_eph)).finish(),
            PacketRef::AlpSrv(x) => f.debug_tuple("AlpSrv").field(&Of(x, dbg_alp_srv)).finish(),
            PacketRef::AckAck(x) => f.debug_tuple("AckAck").field(&Of(x, dbg_ack_ack)).finish(),
            PacketRef::AckNak(x) => f.debug_tuple("AckNak").field(&Of(x, dbg_ack_nak)).finish(),
            PacketRef::CfgItfm(x) => f.debug_tuple("CfgItfm").field(&Of(x, dbg_cfg_itfm)).finish(),
            PacketRef::CfgPrtI2c(x) => f.debug_tuple("CfgPrtI2c").field(&Of(x, dbg_cfg_prt_i2c)).finish(),
            PacketRef::CfgPrtSpi(x) => f.debug_tuple("CfgPrtSpi").field(&Of(x, dbg_cfg_prt_spi)).finish(),
            PacketRef::CfgPrtUart(x) => f.debug_tuple("CfgPrtUart").field(&Of(x, dbg_cfg_prt_uart)).finish(),
            PacketRef::CfgNav5(x) => f.debug_tuple("CfgNav5").field(&Of(x, dbg_cfg_nav5)).finish(),
            PacketRef::CfgAnt(x) => f.debug_tuple("CfgAnt").field(&Of(x, dbg_cfg_ant)).finish(),
            PacketRef::CfgTmode2(x) => f.debug_tuple("CfgTmode2").field(&Of(x, dbg_cfg_tmode2)).finish(),
            PacketRef::CfgTmode3(x) => f.debug_tuple("CfgTmode3").field(&Of(x, dbg_cfg_tmode3)).finish(),
            PacketRef::CfgTp5(x) => f.debug_tuple("CfgTp5").field(&Of(x, dbg_cfg_tp5)).finish(),
            PacketRef::InfError(x) => f.debug_tuple("InfError").field(&Of(x, dbg_inf_error)).finish(),
            PacketRef::InfWarning(x) => f.debug_tuple("InfWarning").field(&Of(x, dbg_inf_warning)).finish(),
            PacketRef::InfNotice(x) => f.debug_tuple("InfNotice").field(&Of(x, dbg_inf_notice)).finish(),
            PacketRef::InfTest(x) => f.debug_tuple("InfTest").field(&Of(x, dbg_inf_test)).finish(),
            PacketRef::InfDebug(x) => f.debug_tuple("InfDebug").field(&Of(x, dbg_inf_debug)).finish(),
            PacketRef::RxmRawx(x) => f.debug_tuple("RxmRawx").field(&Of(x, dbg_rxm_rawx)).finish(),
            PacketRef::TimTp(x) => f.debug_tuple("TimTp").field(&Of(x, dbg_tim_tp)).finish(),
            PacketRef::TimTm2(x) => f.debug_tuple("TimTm2").field(&Of(x, dbg_tim_tm2)).finish(),
            PacketRef::MonVer(x) => f.debug_tuple("MonVer").field(&Of(x, dbg_mon_ver)).finish(),
            PacketRef::MonGnss(x) => f.debug_tuple("MonGnss").field(&Of(x, dbg_mon_gnss)).finish(),
            PacketRef::MonHw(x) => f.debug_tuple("MonHw").field(&Of(x, dbg_mon_hw)).finish(),
            PacketRef::RxmRtcm(x) => f.debug_tuple("RxmRtcm").field(&Of(x, dbg_rxm_rtcm)).finish(),
            PacketRef::EsfMeas(x) => f.debug_tuple("EsfMeas").field(&Of(x, dbg_esf_meas)).finish(),
            PacketRef::EsfIns(x) => f.debug_tuple("EsfIns").field(&Of(x, dbg_esf_ins)).finish(),
            PacketRef::HnrAtt(x) => f.debug_tuple("HnrAtt").field(&Of(x, dbg_hnr_att)).finish(),
            PacketRef::HnrIns(x) => f.debug_tuple("HnrIns").field(&Of(x, dbg_hnr_ins)).finish(),
            PacketRef::HnrPvt(x) => f.debug_tuple("HnrPvt").field(&Of(x, dbg_hnr_pvt)).finish(),
            PacketRef::NavAtt(x) => f.debug_tuple("NavAtt").field(&Of(x, dbg_nav_att)).finish(),
            PacketRef::NavClock(x) => f.debug_tuple("NavClock").field(&Of(x, dbg_nav_clock)).finish(),
            PacketRef::NavVelECEF(x) => f.debug_tuple("NavVelECEF").field(&Of(x, dbg_nav_vel_e_c_e_f)).finish(),
            PacketRef::MgaGpsEPH(x) => f.debug_tuple("MgaGpsEPH").field(&Of(x, dbg_mga_gps_e_p_h)).finish(),
            PacketRef::RxmSfrbx(x) => f.debug_tuple("RxmSfrbx").field(&Of(x, dbg_rxm_sfrbx)).finish(),
            PacketRef::EsfRaw(x) => f.debug_tuple("EsfRaw").field(&Of(x, dbg_esf_raw)).finish(),
            PacketRef::TimSvin(x) => f.debug_tuple("TimSvin").field(&Of(x, dbg_tim_svin)).finish(),
            PacketRef::SecUniqId(x) => f.debug_tuple("SecUniqId").field(&Of(x, dbg_sec_uniq_id)).finish(),
            PacketRef::Unknown(x) => f.debug_tuple("Unknown").field(&Of(x, |x, f| f.debug_struct("UbxUnknownPacketRef").field("payload", &x.payload).field("class", &x.class).field("msg_id", &x.msg_id).finish())).finish(),
            _ => Ok(()),
        }
    }
}
pub struct Of<'a, T>(pub &'a T, pub fn(&T, &mut std::fmt::Formatter) -> std::fmt::Result);
impl<T> std::fmt::Debug for Of<'_, T> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { (self.1)(self.0, f) } }
/// Debug text of the packet without the envelope, actual and expected.
pub fn inner_debug(p: &PacketRef) -> (String, String) {
    #[allow(unreachable_patterns)]
    match p {
        PacketRef::NavPosLlh(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_pos_llh))),
        PacketRef::NavStatus(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_status))),
        PacketRef::NavDop(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_dop))),
        PacketRef::NavPvt(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_pvt))),
        PacketRef::NavSolution(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_solution))),
        PacketRef::NavVelNed(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_vel_ned))),
        PacketRef::NavHpPosLlh(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_hp_pos_llh))),
        PacketRef::NavHpPosEcef(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_hp_pos_ecef))),
        PacketRef::NavTimeUTC(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_time_u_t_c))),
        PacketRef::NavTimeLs(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_time_ls))),
        PacketRef::NavSat(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_sat))),
        PacketRef::NavEoe(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_eoe))),
        PacketRef::NavOdo(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_odo))),
        PacketRef::CfgOdo(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_odo))),
        PacketRef::MgaAck(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mga_ack))),
        PacketRef::MgaGpsIono(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mga_gps_iono))),
        PacketRef::MgaGpsEph(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mga_gps_eph))),
        PacketRef::MgaGloEph(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mga_glo_eph))),
        PacketRef::AlpSrv(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_alp_srv))),
        PacketRef::AckAck(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_ack_ack))),
        PacketRef::AckNak(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_ack_nak))),
        PacketRef::CfgItfm(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_itfm))),
        PacketRef::CfgPrtI2c(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_prt_i2c))),
        PacketRef::CfgPrtSpi(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_prt_spi))),
        PacketRef::CfgPrtUart(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_prt_uart))),
        PacketRef::CfgNav5(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_nav5))),
        PacketRef::CfgAnt(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_ant))),
        PacketRef::CfgTmode2(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_tmode2))),
        PacketRef::CfgTmode3(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_tmode3))),
        PacketRef::CfgTp5(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_cfg_tp5))),
        PacketRef::InfError(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_inf_error))),
        PacketRef::InfWarning(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_inf_warning))),
        PacketRef::InfNotice(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_inf_notice))),
        PacketRef::InfTest(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_inf_test))),
        PacketRef::InfDebug(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_inf_debug))),
        PacketRef::RxmRawx(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_rxm_rawx))),
        PacketRef::TimTp(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_tim_tp))),
        PacketRef::TimTm2(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_tim_tm2))),
        PacketRef::MonVer(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mon_ver))),
        PacketRef::MonGnss(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mon_gnss))),
        PacketRef::MonHw(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mon_hw))),
        PacketRef::RxmRtcm(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_rxm_rtcm))),
        PacketRef::EsfMeas(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_esf_meas))),
        PacketRef::EsfIns(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_esf_ins))),
        PacketRef::HnrAtt(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_hnr_att))),
        PacketRef::HnrIns(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_hnr_ins))),
        PacketRef::HnrPvt(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_hnr_pvt))),
        PacketRef::NavAtt(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_att))),
        PacketRef::NavClock(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_clock))),
        PacketRef::NavVelECEF(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_vel_e_c_e_f))),
        PacketRef::MgaGpsEPH(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_mga_gps_e_p_h))),
        PacketRef::RxmSfrbx(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_rxm_sfrbx))),
        PacketRef::EsfRaw(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_esf_raw))),
        PacketRef::TimSvin(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_tim_svin))),
        PacketRef::SecUniqId(x) => (format!("{:?}", x), format!("{:?}", Of(x, dbg_sec_uniq_id))),
        _ => Default::default(),
    }
}

pub fn record_debug_nav_sat_sv_info(x: &NavSatSvInfoRef) -> (String, String) { (format!("{:?}", x), format!("{:?}", Of(x, dbg_nav_sat_sv_info))) }
pub fn record_debug_rxm_rawx_info(x: &RxmRawxInfoRef) -> (String, String) { (format!("{:?}", x), format!("{:?}", Of(x, dbg_rxm_rawx_info))) }
pub struct Meta { pub name: &'static str, pub class: u8, pub id: u8, pub fixed: Option<u16>, pub max: u16, pub request: [u8; 8] }
fn meta<T: UbxPacketMeta>(name: &'static str) -> Meta { Meta { name, class: T::CLASS, id: T::ID, fixed: T::FIXED_PAYLOAD_LEN, max: T::MAX_PAYLOAD_LEN, request: UbxPacketRequest::request_for::<T>().into_packet_bytes() } }
pub fn metas() -> Vec<Meta> {
    vec![
        meta::<NavPosLlh>("NavPosLlh"),
        meta::<NavVelNed>("NavVelNed"),
        meta::<NavHpPosLlh>("NavHpPosLlh"),
        meta::<NavHpPosEcef>("NavHpPosEcef"),
        meta::<NavPvt>("NavPvt"),
        meta::<NavStatus>("NavStatus"),
        meta::<NavDop>("NavDop"),
        meta::<NavEoe>("NavEoe"),
        meta::<NavSolution>("NavSolution"),
        meta::<NavSatSvInfo>("NavSatSvInfo"),
        meta::<NavSat>("NavSat"),
        meta::<NavOdo>("NavOdo"),
        meta::<NavResetOdo>("NavResetOdo"),
        meta::<CfgOdo>("CfgOdo"),
        meta::<CfgItfm>("CfgItfm"),
        meta::<CfgInf>("CfgInf"),
        meta::<InfError>("InfError"),
        meta::<InfNotice>("InfNotice"),
        meta::<InfTest>("InfTest"),
        meta::<InfWarning>("InfWarning"),
        meta::<InfDebug>("InfDebug"),
        meta::<AidIni>("AidIni"),
        meta::<AlpSrv>("AlpSrv"),
        meta::<AckAck>("AckAck"),
        meta::<AckNak>("AckNak"),
        meta::<CfgRst>("CfgRst"),
        meta::<CfgAnt>("CfgAnt"),
        meta::<CfgTp5>("CfgTp5"),
        meta::<CfgTmode2>("CfgTmode2"),
        meta::<TimSvin>("TimSvin"),
        meta::<NavTimeLs>("NavTimeLs"),
        meta::<CfgTmode3>("CfgTmode3"),
        meta::<CfgValSet>("CfgValSet"),
        meta::<CfgPrtI2c>("CfgPrtI2c"),
        meta::<CfgPrtUart>("CfgPrtUart"),
        meta::<CfgPrtSpi>("CfgPrtSpi"),
        meta::<NavTimeUTC>("NavTimeUTC"),
        meta::<CfgRate>("CfgRate"),
        meta::<CfgMsgSinglePort>("CfgMsgSinglePort"),
        meta::<CfgMsgAllPorts>("CfgMsgAllPorts"),
        meta::<CfgNav5>("CfgNav5"),
        meta::<CfgNavX5>("CfgNavX5"),
        meta::<MgaAck>("MgaAck"),
        meta::<MgaGloEph>("MgaGloEph"),
        meta::<MgaGpsIono>("MgaGpsIono"),
        meta::<MgaGpsEph>("MgaGpsEph"),
        meta::<TimTp>("TimTp"),
        meta::<TimTm2>("TimTm2"),
        meta::<RxmRawx>("RxmRawx"),
        meta::<MonHw>("MonHw"),
        meta::<MonGnss>("MonGnss"),
        meta::<MonVer>("MonVer"),
        meta::<RxmRtcm>("RxmRtcm"),
        meta::<EsfMeas>("EsfMeas"),
        meta::<EsfRaw>("EsfRaw"),
        meta::<EsfIns>("EsfIns"),
        meta::<HnrAtt>("HnrAtt"),
        meta::<HnrIns>("HnrIns"),
        meta::<HnrPvt>("HnrPvt"),
        meta::<NavAtt>("NavAtt"),
        meta::<NavClock>("NavClock"),
        meta::<RxmSfrbx>("RxmSfrbx"),
        meta::<NavVelECEF>("NavVelECEF"),
        meta::<MgaGpsEPH>("MgaGpsEPH"),
        meta::<RxmRawxInfo>("RxmRawxInfo"),
        meta::<SecUniqId>("SecUniqId"),
    ]
}

/// (flag set, constant, bits) as the crate defines them.
pub fn flag_consts() -> Vec<(&'static str, &'static str, u64)> {
    vec![
        ("NavHpPosEcefFlags", "INVALID_ECEF", NavHpPosEcefFlags::INVALID_ECEF.bits() as u64),
        ("NavPvtFlags", "GPS_FIX_OK", NavPvtFlags::GPS_FIX_OK.bits() as u64),
        ("NavPvtFlags", "DIFF_SOLN", NavPvtFlags::DIFF_SOLN.bits() as u64),
        ("NavPvtFlags", "HEAD_VEH_VALID", NavPvtFlags::HEAD_VEH_VALID.bits() as u64),
        ("NavPvtFlags", "CARR_SOLN_FLOAT", NavPvtFlags::CARR_SOLN_FLOAT.bits() as u64),
        ("NavPvtFlags", "CARR_SOLN_FIXED", NavPvtFlags::CARR_SOLN_FIXED.bits() as u64),
        ("NavPvtFlags2", "CONFIRMED_AVAI", NavPvtFlags2::CONFIRMED_AVAI.bits() as u64),
        ("NavPvtFlags2", "CONFIRMED_DATE", NavPvtFlags2::CONFIRMED_DATE.bits() as u64),
        ("NavPvtFlags2", "CONFIRMED_TIME", NavPvtFlags2::CONFIRMED_TIME.bits() as u64),
        ("NavStatusFlags", "GPS_FIX_OK", NavStatusFlags::GPS_FIX_OK.bits() as u64),
        ("NavStatusFlags", "DIFF_SOLN", NavStatusFlags::DIFF_SOLN.bits() as u64),
        ("NavStatusFlags", "WKN_SET", NavStatusFlags::WKN_SET.bits() as u64),
        ("NavStatusFlags", "TOW_SET", NavStatusFlags::TOW_SET.bits() as u64),
        ("OdoCogFilterFlags", "USE_ODO", OdoCogFilterFlags::USE_ODO.bits() as u64),
        ("OdoCogFilterFlags", "USE_COG", OdoCogFilterFlags::USE_COG.bits() as u64),
        ("OdoCogFilterFlags", "OUT_LP_VEL", OdoCogFilterFlags::OUT_LP_VEL.bits() as u64),
        ("OdoCogFilterFlags", "OUT_LP_COG", OdoCogFilterFlags::OUT_LP_COG.bits() as u64),
        ("CfgInfMask", "ERROR", CfgInfMask::ERROR.bits() as u64),
        ("CfgInfMask", "WARNING", CfgInfMask::WARNING.bits() as u64),
        ("CfgInfMask", "NOTICE", CfgInfMask::NOTICE.bits() as u64),
        ("CfgInfMask", "TEST", CfgInfMask::TEST.bits() as u64),
        ("CfgInfMask", "DEBUG", CfgInfMask::DEBUG.bits() as u64),
        ("AntFlags", "SVCS", AntFlags::SVCS.bits() as u64),
        ("AntFlags", "SCD", AntFlags::SCD.bits() as u64),
        ("AntFlags", "OCD", AntFlags::OCD.bits() as u64),
        ("AntFlags", "PDWN_ON_SCD", AntFlags::PDWN_ON_SCD.bits() as u64),
        ("AntFlags", "RECOVERY", AntFlags::RECOVERY.bits() as u64),
        ("CfgTmode2Flags", "LLA", CfgTmode2Flags::LLA.bits() as u64),
        ("CfgTmode2Flags", "ALT_INVALID", CfgTmode2Flags::ALT_INVALID.bits() as u64),
        ("NavTimeLsFlags", "VALID_CURR_LS", NavTimeLsFlags::VALID_CURR_LS.bits() as u64),
        ("NavTimeLsFlags", "VALID_TIME_TO_LS_EVENT", NavTimeLsFlags::VALID_TIME_TO_LS_EVENT.bits() as u64),
        ("CfgTmode3RcvrMode", "DISABLED", CfgTmode3RcvrMode::DISABLED.bits() as u64),
        ("CfgTmode3RcvrMode", "SURVEY_IN", CfgTmode3RcvrMode::SURVEY_IN.bits() as u64),
        ("CfgTmode3RcvrMode", "FIXED_MODE", CfgTmode3RcvrMode::FIXED_MODE.bits() as u64),
        ("CfgTp5Flags", "ACTIVE", CfgTp5Flags::ACTIVE.bits() as u64),
        ("CfgTp5Flags", "LOCK_GNSS_FREQ", CfgTp5Flags::LOCK_GNSS_FREQ.bits() as u64),
        ("CfgTp5Flags", "LOCKED_OTHER_SET", CfgTp5Flags::LOCKED_OTHER_SET.bits() as u64),
        ("CfgTp5Flags", "IS_FREQ", CfgTp5Flags::IS_FREQ.bits() as u64),
        ("CfgTp5Flags", "IS_LENGTH", CfgTp5Flags::IS_LENGTH.bits() as u64),
        ("CfgTp5Flags", "ALIGN_TO_TOW", CfgTp5Flags::ALIGN_TO_TOW.bits() as u64),
        ("CfgTp5Flags", "POLARITY", CfgTp5Flags::POLARITY.bits() as u64),
        ("CfgTp5Flags", "UTC_TIME_GRID", CfgTp5Flags::UTC_TIME_GRID.bits() as u64),
        ("CfgTp5Flags", "GPS_TIME_GRID", CfgTp5Flags::GPS_TIME_GRID.bits() as u64),
        ("CfgTp5Flags", "GLO_TIME_GRID", CfgTp5Flags::GLO_TIME_GRID.bits() as u64),
        ("CfgTp5Flags", "BDS_TIME_GRID", CfgTp5Flags::BDS_TIME_GRID.bits() as u64),
        ("CfgTp5Flags", "GAL_TIME_GRID", CfgTp5Flags::GAL_TIME_GRID.bits() as u64),
        ("CfgTp5Flags", "SYNC_MODE_0", CfgTp5Flags::SYNC_MODE_0.bits() as u64),
        ("CfgTp5Flags", "SYNC_MODE_1", CfgTp5Flags::SYNC_MODE_1.bits() as u64),
        ("CfgTmode3Flags", "LLA", CfgTmode3Flags::LLA.bits() as u64),
        ("NavBbrMask", "EPHEMERIS", NavBbrMask::EPHEMERIS.bits() as u64),
        ("NavBbrMask", "ALMANACH", NavBbrMask::ALMANACH.bits() as u64),
        ("NavBbrMask", "HEALTH", NavBbrMask::HEALTH.bits() as u64),
        ("NavBbrMask", "KLOBUCHARD", NavBbrMask::KLOBUCHARD.bits() as u64),
        ("NavBbrMask", "POSITION", NavBbrMask::POSITION.bits() as u64),
        ("NavBbrMask", "CLOCK_DRIFT", NavBbrMask::CLOCK_DRIFT.bits() as u64),
        ("NavBbrMask", "OSCILATOR_PARAMETER", NavBbrMask::OSCILATOR_PARAMETER.bits() as u64),
        ("NavBbrMask", "UTC_CORRECTION_PARAMETERS", NavBbrMask::UTC_CORRECTION_PARAMETERS.bits() as u64),
        ("NavBbrMask", "RTC", NavBbrMask::RTC.bits() as u64),
        ("NavBbrMask", "SFDR_PARAMETERS", NavBbrMask::SFDR_PARAMETERS.bits() as u64),
        ("NavBbrMask", "SFDR_VEHICLE_MONITORING_PARAMETERS", NavBbrMask::SFDR_VEHICLE_MONITORING_PARAMETERS.bits() as u64),
        ("NavBbrMask", "TCT_PARAMETERS", NavBbrMask::TCT_PARAMETERS.bits() as u64),
        ("NavBbrMask", "AUTONOMOUS_ORBIT_PARAMETERS", NavBbrMask::AUTONOMOUS_ORBIT_PARAMETERS.bits() as u64),
        ("CfgLayer", "RAM", CfgLayer::RAM.bits() as u64),
        ("CfgLayer", "BBR", CfgLayer::BBR.bits() as u64),
        ("CfgLayer", "FLASH", CfgLayer::FLASH.bits() as u64),
        ("InProtoMask", "UBLOX", InProtoMask::UBLOX.bits() as u64),
        ("InProtoMask", "NMEA", InProtoMask::NMEA.bits() as u64),
        ("InProtoMask", "RTCM", InProtoMask::RTCM.bits() as u64),
        ("InProtoMask", "RTCM3", InProtoMask::RTCM3.bits() as u64),
        ("OutProtoMask", "UBLOX", OutProtoMask::UBLOX.bits() as u64),
        ("OutProtoMask", "NMEA", OutProtoMask::NMEA.bits() as u64),
        ("OutProtoMask", "RTCM3", OutProtoMask::RTCM3.bits() as u64),
        ("NavTimeUtcFlags", "VALID_TOW", NavTimeUtcFlags::VALID_TOW.bits() as u64),
        ("NavTimeUtcFlags", "VALID_WKN", NavTimeUtcFlags::VALID_WKN.bits() as u64),
        ("NavTimeUtcFlags", "VALID_UTC", NavTimeUtcFlags::VALID_UTC.bits() as u64),
        ("CfgNav5Params", "DYN", CfgNav5Params::DYN.bits() as u64),
        ("CfgNav5Params", "MIN_EL", CfgNav5Params::MIN_EL.bits() as u64),
        ("CfgNav5Params", "POS_FIX_MODE", CfgNav5Params::POS_FIX_MODE.bits() as u64),
        ("CfgNav5Params", "DR_LIM", CfgNav5Params::DR_LIM.bits() as u64),
        ("CfgNav5Params", "POS_MASK_APPLY", CfgNav5Params::POS_MASK_APPLY.bits() as u64),
        ("CfgNav5Params", "TIME_MASK", CfgNav5Params::TIME_MASK.bits() as u64),
        ("CfgNav5Params", "STATIC_HOLD_MASK", CfgNav5Params::STATIC_HOLD_MASK.bits() as u64),
        ("CfgNav5Params", "DGPS_MASK", CfgNav5Params::DGPS_MASK.bits() as u64),
        ("CfgNav5Params", "CNO_THRESHOLD", CfgNav5Params::CNO_THRESHOLD.bits() as u64),
        ("CfgNav5Params", "UTC", CfgNav5Params::UTC.bits() as u64),
        ("CfgNavX5Params1", "MIN_MAX", CfgNavX5Params1::MIN_MAX.bits() as u64),
        ("CfgNavX5Params1", "MIN_CNO", CfgNavX5Params1::MIN_CNO.bits() as u64),
        ("CfgNavX5Params1", "INITIAL_3D_FIX", CfgNavX5Params1::INITIAL_3D_FIX.bits() as u64),
        ("CfgNavX5Params1", "WKN_ROLL", CfgNavX5Params1::WKN_ROLL.bits() as u64),
        ("CfgNavX5Params1", "AID_ACK", CfgNavX5Params1::AID_ACK.bits() as u64),
        ("CfgNavX5Params1", "USE_PPP", CfgNavX5Params1::USE_PPP.bits() as u64),
        ("CfgNavX5Params1", "AOP_CFG", CfgNavX5Params1::AOP_CFG.bits() as u64),
        ("CfgNavX5Params2", "USE_ADR", CfgNavX5Params2::USE_ADR.bits() as u64),
        ("CfgNavX5Params2", "USE_SIG_ATTEN_COMP", CfgNavX5Params2::USE_SIG_ATTEN_COMP.bits() as u64),
        ("RecStatFlags", "LEAP_SEC", RecStatFlags::LEAP_SEC.bits() as u64),
        ("RecStatFlags", "CLK_RESET", RecStatFlags::CLK_RESET.bits() as u64),
        ("MonGnssConstellMask", "GPS", MonGnssConstellMask::GPS.bits() as u64),
        ("MonGnssConstellMask", "GLO", MonGnssConstellMask::GLO.bits() as u64),
        ("MonGnssConstellMask", "BDC", MonGnssConstellMask::BDC.bits() as u64),
        ("MonGnssConstellMask", "GAL", MonGnssConstellMask::GAL.bits() as u64),
        ("EsfInsBitFlags", "VERSION", EsfInsBitFlags::VERSION.bits() as u64),
        ("EsfInsBitFlags", "X_ANG_RATE_VALID", EsfInsBitFlags::X_ANG_RATE_VALID.bits() as u64),
        ("EsfInsBitFlags", "Y_ANG_RATE_VALID", EsfInsBitFlags::Y_ANG_RATE_VALID.bits() as u64),
        ("EsfInsBitFlags", "Z_ANG_RATE_VALID", EsfInsBitFlags::Z_ANG_RATE_VALID.bits() as u64),
        ("EsfInsBitFlags", "X_ACCEL_VALID", EsfInsBitFlags::X_ACCEL_VALID.bits() as u64),
        ("EsfInsBitFlags", "Y_ACCEL_VALID", EsfInsBitFlags::Y_ACCEL_VALID.bits() as u64),
        ("EsfInsBitFlags", "Z_ACCEL_VALID", EsfInsBitFlags::Z_ACCEL_VALID.bits() as u64),
        ("HnrInsBitFlags", "VERSION", HnrInsBitFlags::VERSION.bits() as u64),
        ("HnrInsBitFlags", "X_ANG_RATE_VALID", HnrInsBitFlags::X_ANG_RATE_VALID.bits() as u64),
        ("HnrInsBitFlags", "Y_ANG_RATE_VALID", HnrInsBitFlags::Y_ANG_RATE_VALID.bits() as u64),
        ("HnrInsBitFlags", "Z_ANG_RATE_VALID", HnrInsBitFlags::Z_ANG_RATE_VALID.bits() as u64),
        ("HnrInsBitFlags", "X_ACCEL_VALID", HnrInsBitFlags::X_ACCEL_VALID.bits() as u64),
        ("HnrInsBitFlags", "Y_ACCEL_VALID", HnrInsBitFlags::Y_ACCEL_VALID.bits() as u64),
        ("HnrInsBitFlags", "Z_ACCEL_VALID", HnrInsBitFlags::Z_ACCEL_VALID.bits() as u64),
        ("HnrPvtFlags", "GPS_FIX_OK", HnrPvtFlags::GPS_FIX_OK.bits() as u64),
        ("HnrPvtFlags", "DIFF_SOLN", HnrPvtFlags::DIFF_SOLN.bits() as u64),
        ("HnrPvtFlags", "WKN_SET", HnrPvtFlags::WKN_SET.bits() as u64),
        ("HnrPvtFlags", "TOW_SET", HnrPvtFlags::TOW_SET.bits() as u64),
        ("HnrPvtFlags", "HEAD_VEH_VALID", HnrPvtFlags::HEAD_VEH_VALID.bits() as u64),
        ("HnrPvtValidFlags", "VALID_DATE", HnrPvtValidFlags::VALID_DATE.bits() as u64),
        ("HnrPvtValidFlags", "VALID_TIME", HnrPvtValidFlags::VALID_TIME.bits() as u64),
        ("HnrPvtValidFlags", "FULLY_RESOLVED", HnrPvtValidFlags::FULLY_RESOLVED.bits() as u64),
        ("StdevFlags", "STD_1", StdevFlags::STD_1.bits() as u64),
        ("StdevFlags", "STD_2", StdevFlags::STD_2.bits() as u64),
        ("StdevFlags", "STD_3", StdevFlags::STD_3.bits() as u64),
        ("StdevFlags", "STD_4", StdevFlags::STD_4.bits() as u64),
        ("TrkStatFlags", "PR_VALID", TrkStatFlags::PR_VALID.bits() as u64),
        ("TrkStatFlags", "CP_VALID", TrkStatFlags::CP_VALID.bits() as u64),
        ("TrkStatFlags", "HALF_CYCLE", TrkStatFlags::HALF_CYCLE.bits() as u64),
        ("TrkStatFlags", "SUB_HALF_CYCLE", TrkStatFlags::SUB_HALF_CYCLE.bits() as u64),
    ]
}

pub fn is_ack(name: &str, a: &AckAckRef) -> bool {
    match name {
        "NavPosLlh" => a.is_ack_for::<NavPosLlh>(),
        "NavVelNed" => a.is_ack_for::<NavVelNed>(),
        "NavHpPosLlh" => a.is_ack_for::<NavHpPosLlh>(),
        "NavHpPosEcef" => a.is_ack_for::<NavHpPosEcef>(),
        "NavPvt" => a.is_ack_for::<NavPvt>(),
        "NavStatus" => a.is_ack_for::<NavStatus>(),
        "NavDop" => a.is_ack_for::<NavDop>(),
        "NavEoe" => a.is_ack_for::<NavEoe>(),
        "NavSolution" => a.is_ack_for::<NavSolution>(),
        "NavSatSvInfo" => a.is_ack_for::<NavSatSvInfo>(),
        "NavSat" => a.is_ack_for::<NavSat>(),
        "NavOdo" => a.is_ack_for::<NavOdo>(),
        "NavResetOdo" => a.is_ack_for::<NavResetOdo>(),
        "CfgOdo" => a.is_ack_for::<CfgOdo>(),
        "CfgItfm" => a.is_ack_for::<CfgItfm>(),
        "CfgInf" => a.is_ack_for::<CfgInf>(),
        "InfError" => a.is_ack_for::<InfError>(),
        "InfNotice" => a.is_ack_for::<InfNotice>(),
        "InfTest" => a.is_ack_for::<InfTest>(),
        "InfWarning" => a.is_ack_for::<InfWarning>(),
        "InfDebug" => a.is_ack_for::<InfDebug>(),
        "AidIni" => a.is_ack_for::<AidIni>(),
        "AlpSrv" => a.is_ack_for::<AlpSrv>(),
        "AckAck" => a.is_ack_for::<AckAck>(),
        "AckNak" => a.is_ack_for::<AckNak>(),
        "CfgRst" => a.is_ack_for::<CfgRst>(),
        "CfgAnt" => a.is_ack_for::<CfgAnt>(),
        "CfgTp5" => a.is_ack_for::<CfgTp5>(),
        "CfgTmode2" => a.is_ack_for::<CfgTmode2>(),
        "TimSvin" => a.is_ack_for::<TimSvin>(),
        "NavTimeLs" => a.is_ack_for::<NavTimeLs>(),
        "CfgTmode3" => a.is_ack_for::<CfgTmode3>(),
        "CfgValSet" => a.is_ack_for::<CfgValSet>(),
        "CfgPrtI2c" => a.is_ack_for::<CfgPrtI2c>(),
        "CfgPrtUart" => a.is_ack_for::<CfgPrtUart>(),
        "CfgPrtSpi" => a.is_ack_for::<CfgPrtSpi>(),
        "NavTimeUTC" => a.is_ack_for::<NavTimeUTC>(),
        "CfgRate" => a.is_ack_for::<CfgRate>(),
        "CfgMsgSinglePort" => a.is_ack_for::<CfgMsgSinglePort>(),
        "CfgMsgAllPorts" => a.is_ack_for::<CfgMsgAllPorts>(),
        "CfgNav5" => a.is_ack_for::<CfgNav5>(),
        "CfgNavX5" => a.is_ack_for::<CfgNavX5>(),
        "MgaAck" => a.is_ack_for::<MgaAck>(),
        "MgaGloEph" => a.is_ack_for::<MgaGloEph>(),
        "MgaGpsIono" => a.is_ack_for::<MgaGpsIono>(),
        "MgaGpsEph" => a.is_ack_for::<MgaGpsEph>(),
        "TimTp" => a.is_ack_for::<TimTp>(),
        "TimTm2" => a.is_ack_for::<TimTm2>(),
        "RxmRawx" => a.is_ack_for::<RxmRawx>(),
        "MonHw" => a.is_ack_for::<MonHw>(),
        "MonGnss" => a.is_ack_for::<MonGnss>(),
        "MonVer" => a.is_ack_for::<MonVer>(),
        "RxmRtcm" => a.is_ack_for::<RxmRtcm>(),
        "EsfMeas" => a.is_ack_for::<EsfMeas>(),
        "EsfRaw" => a.is_ack_for::<EsfRaw>(),
        "EsfIns" => a.is_ack_for::<EsfIns>(),
        "HnrAtt" => a.is_ack_for::<HnrAtt>(),
        "HnrIns" => a.is_ack_for::<HnrIns>(),
        "HnrPvt" => a.is_ack_for::<HnrPvt>(),
        "NavAtt" => a.is_ack_for::<NavAtt>(),
        "NavClock" => a.is_ack_for::<NavClock>(),
        "RxmSfrbx" => a.is_ack_for::<RxmSfrbx>(),
        "NavVelECEF" => a.is_ack_for::<NavVelECEF>(),
        "MgaGpsEPH" => a.is_ack_for::<MgaGpsEPH>(),
        "RxmRawxInfo" => a.is_ack_for::<RxmRawxInfo>(),
        "SecUniqId" => a.is_ack_for::<SecUniqId>(),
        _ => panic!("harness: no packet {}", name),
    }
}

pub fn is_nak(name: &str, a: &AckNakRef) -> bool {
    match name {
        "NavPosLlh" => a.is_nak_for::<NavPosLlh>(),
        "NavVelNed" => a.is_nak_for::<NavVelNed>(),
        "NavHpPosLlh" => a.is_nak_for::<NavHpPosLlh>(),
        "NavHpPosEcef" => a.is_nak_for::<NavHpPosEcef>(),
        "NavPvt" => a.is_nak_for::<NavPvt>(),
        "NavStatus" => a.is_nak_for::<NavStatus>(),
        "NavDop" => a.is_nak_for::<NavDop>(),
        "NavEoe" => a.is_nak_for::<NavEoe>(),
        "NavSolution" => a.is_nak_for::<NavSolution>(),
        "NavSatSvInfo" => a.is_nak_for::<NavSatSvInfo>(),
        "NavSat" => a.is_nak_for::<NavSat>(),
        "NavOdo" => a.is_nak_for::<NavOdo>(),
        "NavResetOdo" => a.is_nak_for::<NavResetOdo>(),
        "CfgOdo" => a.is_nak_for::<CfgOdo>(),
        "CfgItfm" => a.is_nak_for::<CfgItfm>(),
        "CfgInf" => a.is_nak_for::<CfgInf>(),
        "InfError" => a.is_nak_for::<InfError>(),
        "InfNotice" => a.is_nak_for::<InfNotice>(),
        "InfTest" => a.is_nak_for::<InfTest>(),
        "InfWarning" => a.is_nak_for::<InfWarning>(),
        "InfDebug" => a.is_nak_for::<InfDebug>(),
        "AidIni" => a.is_nak_for::<AidIni>(),
        "AlpSrv" => a.is_nak_for::<AlpSrv>(),
        "AckAck" => a.is_nak_for::<AckAck>(),
        "AckNak" => a.is_nak_for::<AckNak>(),
        "CfgRst" => a.is_nak_for::<CfgRst>(),
        "CfgAnt" => a.is_nak_for::<CfgAnt>(),
        "CfgTp5" => a.is_nak_for::<CfgTp5>(),
        "CfgTmode2" => a.is_nak_for::<CfgTmode2>(),
        "TimSvin" => a.is_nak_for::<TimSvin>(),
        "NavTimeLs" => a.is_nak_for::<NavTimeLs>(),
        "CfgTmode3" => a.is_nak_for::<CfgTmode3>(),
        "CfgValSet" => a.is_nak_for::<CfgValSet>(),
        "CfgPrtI2c" => a.is_nak_for::<CfgPrtI2c>(),
        "CfgPrtUart" => a.is_nak_for::<CfgPrtUart>(),
        "CfgPrtSpi" => a.is_nak_for::<CfgPrtSpi>(),
        "NavTimeUTC" => a.is_nak_for::<NavTimeUTC>(),
        "CfgRate" => a.is_nak_for::<CfgRate>(),
        "CfgMsgSinglePort" => a.is_nak_for::<CfgMsgSinglePort>(),
        "CfgMsgAllPorts" => a.is_nak_for::<CfgMsgAllPorts>(),
        "CfgNav5" => a.is_nak_for::<CfgNav5>(),
        "CfgNavX5" => a.is_nak_for::<CfgNavX5>(),
        "MgaAck" => a.is_nak_for::<MgaAck>(),
        "MgaGloEph" => a.is_nak_for::<MgaGloEph>(),
        "MgaGpsIono" => a.is_nak_for::<MgaGpsIono>(),
        "MgaGpsEph" => a.is_nak_for::<MgaGpsEph>(),
        "TimTp" => a.is_nak_for::<TimTp>(),
        "TimTm2" => a.is_nak_for::<TimTm2>(),
        "RxmRawx" => a.is_nak_for::<RxmRawx>(),
        "MonHw" => a.is_nak_for::<MonHw>(),
        "MonGnss" => a.is_nak_for::<MonGnss>(),
        "MonVer" => a.is_nak_for::<MonVer>(),
        "RxmRtcm" => a.is_nak_for::<RxmRtcm>(),
        "EsfMeas" => a.is_nak_for::<EsfMeas>(),
        "EsfRaw" => a.is_nak_for::<EsfRaw>(),
        "EsfIns" => a.is_nak_for::<EsfIns>(),
        "HnrAtt" => a.is_nak_for::<HnrAtt>(),
        "HnrIns" => a.is_nak_for::<HnrIns>(),
        "HnrPvt" => a.is_nak_for::<HnrPvt>(),
        "NavAtt" => a.is_nak_for::<NavAtt>(),
        "NavClock" => a.is_nak_for::<NavClock>(),
        "RxmSfrbx" => a.is_nak_for::<RxmSfrbx>(),
        "NavVelECEF" => a.is_nak_for::<NavVelECEF>(),
        "MgaGpsEPH" => a.is_nak_for::<MgaGpsEPH>(),
        "RxmRawxInfo" => a.is_nak_for::<RxmRawxInfo>(),
        "SecUniqId" => a.is_nak_for::<SecUniqId>(),
        _ => panic!("harness: no packet {}", name),
    }
}

pub fn rate_single(name: &str, rate: u8) -> Vec<u8> {
    match name {
        "NavPosLlh" => CfgMsgSinglePortBuilder::set_rate_for::<NavPosLlh>(rate).into_packet_bytes().to_vec(),
        "NavVelNed" => CfgMsgSinglePortBuilder::set_rate_for::<NavVelNed>(rate).into_packet_bytes().to_vec(),
        "NavHpPosLlh" => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosLlh>(rate).into_packet_bytes().to_vec(),
        "NavHpPosEcef" => CfgMsgSinglePortBuilder::set_rate_for::<NavHpPosEcef>(rate).into_packet_bytes().to_vec(),
        "NavPvt" => CfgMsgSinglePortBuilder::set_rate_for::<NavPvt>(rate).into_packet_bytes().to_vec(),
        "NavStatus" => CfgMsgSinglePortBuilder::set_rate_for::<NavStatus>(rate).into_packet_bytes().to_vec(),
        "NavDop" => CfgMsgSinglePortBuilder::set_rate_for::<NavDop>(rate).into_packet_bytes().to_vec(),
        "NavEoe" => CfgMsgSinglePortBuilder::set_rate_for::<NavEoe>(rate).into_packet_bytes().to_vec(),
        "NavSolution" => CfgMsgSinglePortBuilder::set_rate_for::<NavSolution>(rate).into_packet_bytes().to_vec(),
        "NavSatSvInfo" => CfgMsgSinglePortBuilder::set_rate_for::<NavSatSvInfo>(rate).into_packet_bytes().to_vec(),
        "NavSat" => CfgMsgSinglePortBuilder::set_rate_for::<NavSat>(rate).into_packet_bytes().to_vec(),
        "NavOdo" => CfgMsgSinglePortBuilder::set_rate_for::<NavOdo>(rate).into_packet_bytes().to_vec(),
        "NavResetOdo" => CfgMsgSinglePortBuilder::set_rate_for::<NavResetOdo>(rate).into_packet_bytes().to_vec(),
        "CfgOdo" => CfgMsgSinglePortBuilder::set_rate_for::<CfgOdo>(rate).into_packet_bytes().to_vec(),
        "CfgItfm" => CfgMsgSinglePortBuilder::set_rate_for::<CfgItfm>(rate).into_packet_bytes().to_vec(),
        "CfgInf" => CfgMsgSinglePortBuilder::set_rate_for::<CfgInf>(rate).into_packet_bytes().to_vec(),
        "InfError" => CfgMsgSinglePortBuilder::set_rate_for::<InfError>(rate).into_packet_bytes().to_vec(),
        "InfNotice" => CfgMsgSinglePortBuilder::set_rate_for::<InfNotice>(rate).into_packet_bytes().to_vec(),
        "InfTest" => CfgMsgSinglePortBuilder::set_rate_for::<InfTest>(rate).into_packet_bytes().to_vec(),
        "InfWarning" => CfgMsgSinglePortBuilder::set_rate_for::<InfWarning>(rate).into_packet_bytes().to_vec(),
        "InfDebug" => CfgMsgSinglePortBuilder::set_rate_for::<InfDebug>(rate).into_packet_bytes().to_vec(),
        "AidIni" => CfgMsgSinglePortBuilder::set_rate_for::<AidIni>(rate).into_packet_bytes().to_vec(),
        "AlpSrv" => CfgMsgSinglePortBuilder::set_rate_for::<AlpSrv>(rate).into_packet_bytes().to_vec(),
        "AckAck" => CfgMsgSinglePortBuilder::set_rate_for::<AckAck>(rate).into_packet_bytes().to_vec(),
        "AckNak" => CfgMsgSinglePortBuilder::set_rate_for::<AckNak>(rate).into_packet_bytes().to_vec(),
        "CfgRst" => CfgMsgSinglePortBuilder::set_rate_for::<CfgRst>(rate).into_packet_bytes().to_vec(),
        "CfgAnt" => CfgMsgSinglePortBuilder::set_rate_for::<CfgAnt>(rate).into_packet_bytes().to_vec(),
        "CfgTp5" => CfgMsgSinglePortBuilder::set_rate_for::<CfgTp5>(rate).into_packet_bytes().to_vec(),
        "CfgTmode2" => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode2>(rate).into_packet_bytes().to_vec(),
        "TimSvin" => CfgMsgSinglePortBuilder::set_rate_for::<TimSvin>(rate).into_packet_bytes().to_vec(),
        "NavTimeLs" => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeLs>(rate).into_packet_bytes().to_vec(),
        "CfgTmode3" => CfgMsgSinglePortBuilder::set_rate_for::<CfgTmode3>(rate).into_packet_bytes().to_vec(),
        "CfgValSet" => CfgMsgSinglePortBuilder::set_rate_for::<CfgValSet>(rate).into_packet_bytes().to_vec(),
        "CfgPrtI2c" => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtI2c>(rate).into_packet_bytes().to_vec(),
        "CfgPrtUart" => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtUart>(rate).into_packet_bytes().to_vec(),
        "CfgPrtSpi" => CfgMsgSinglePortBuilder::set_rate_for::<CfgPrtSpi>(rate).into_packet_bytes().to_vec(),
        "NavTimeUTC" => CfgMsgSinglePortBuilder::set_rate_for::<NavTimeUTC>(rate).into_packet_bytes().to_vec(),
        "CfgRate" => CfgMsgSinglePortBuilder::set_rate_for::<CfgRate>(rate).into_packet_bytes().to_vec(),
        "CfgMsgSinglePort" => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgSinglePort>(rate).into_packet_bytes().to_vec(),
        "CfgMsgAllPorts" => CfgMsgSinglePortBuilder::set_rate_for::<CfgMsgAllPorts>(rate).into_packet_bytes().to_vec(),
        "CfgNav5" => CfgMsgSinglePortBuilder::set_rate_for::<CfgNav5>(rate).into_packet_bytes().to_vec(),
        "CfgNavX5" => CfgMsgSinglePortBuilder::set_rate_for::<CfgNavX5>(rate).into_packet_bytes().to_vec(),
        "MgaAck" => CfgMsgSinglePortBuilder::set_rate_for::<MgaAck>(rate).into_packet_bytes().to_vec(),
        "MgaGloEph" => CfgMsgSinglePortBuilder::set_rate_for::<MgaGloEph>(rate).into_packet_bytes().to_vec(),
        "MgaGpsIono" => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsIono>(rate).into_packet_bytes().to_vec(),
        "MgaGpsEph" => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEph>(rate).into_packet_bytes().to_vec(),
        "TimTp" => CfgMsgSinglePortBuilder::set_rate_for::<TimTp>(rate).into_packet_bytes().to_vec(),
        "TimTm2" => CfgMsgSinglePortBuilder::set_rate_for::<TimTm2>(rate).into_packet_bytes().to_vec(),
        "RxmRawx" => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawx>(rate).into_packet_bytes().to_vec(),
        "MonHw" => CfgMsgSinglePortBuilder::set_rate_for::<MonHw>(rate).into_packet_bytes().to_vec(),
        "MonGnss" => CfgMsgSinglePortBuilder::set_rate_for::<MonGnss>(rate).into_packet_bytes().to_vec(),
        "MonVer" => CfgMsgSinglePortBuilder::set_rate_for::<MonVer>(rate).into_packet_bytes().to_vec(),
        "RxmRtcm" => CfgMsgSinglePortBuilder::set_rate_for::<RxmRtcm>(rate).into_packet_bytes().to_vec(),
        "EsfMeas" => CfgMsgSinglePortBuilder::set_rate_for::<EsfMeas>(rate).into_packet_bytes().to_vec(),
        "EsfRaw" => CfgMsgSinglePortBuilder::set_rate_for::<EsfRaw>(rate).into_packet_bytes().to_vec(),
        "EsfIns" => CfgMsgSinglePortBuilder::set_rate_for::<EsfIns>(rate).into_packet_bytes().to_vec(),
        "HnrAtt" => CfgMsgSinglePortBuilder::set_rate_for::<HnrAtt>(rate).into_packet_bytes().to_vec(),
        "HnrIns" => CfgMsgSinglePortBuilder::set_rate_for::<HnrIns>(rate).into_packet_bytes().to_vec(),
        "HnrPvt" => CfgMsgSinglePortBuilder::set_rate_for::<HnrPvt>(rate).into_packet_bytes().to_vec(),
        "NavAtt" => CfgMsgSinglePortBuilder::set_rate_for::<NavAtt>(rate).into_packet_bytes().to_vec(),
        "NavClock" => CfgMsgSinglePortBuilder::set_rate_for::<NavClock>(rate).into_packet_bytes().to_vec(),
        "RxmSfrbx" => CfgMsgSinglePortBuilder::set_rate_for::<RxmSfrbx>(rate).into_packet_bytes().to_vec(),
        "NavVelECEF" => CfgMsgSinglePortBuilder::set_rate_for::<NavVelECEF>(rate).into_packet_bytes().to_vec(),
        "MgaGpsEPH" => CfgMsgSinglePortBuilder::set_rate_for::<MgaGpsEPH>(rate).into_packet_bytes().to_vec(),
        "RxmRawxInfo" => CfgMsgSinglePortBuilder::set_rate_for::<RxmRawxInfo>(rate).into_packet_bytes().to_vec(),
        "SecUniqId" => CfgMsgSinglePortBuilder::set_rate_for::<SecUniqId>(rate).into_packet_bytes().to_vec(),
        _ => panic!("harness: no packet {}", name),
    }
}

pub fn rate_all(name: &str, rates: [u8; 6]) -> Vec<u8> {
    match name {
        "NavPosLlh" => CfgMsgAllPortsBuilder::set_rate_for::<NavPosLlh>(rates).into_packet_bytes().to_vec(),
        "NavVelNed" => CfgMsgAllPortsBuilder::set_rate_for::<NavVelNed>(rates).into_packet_bytes().to_vec(),
        "NavHpPosLlh" => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosLlh>(rates).into_packet_bytes().to_vec(),
        "NavHpPosEcef" => CfgMsgAllPortsBuilder::set_rate_for::<NavHpPosEcef>(rates).into_packet_bytes().to_vec(),
        "NavPvt" => CfgMsgAllPortsBuilder::set_rate_for::<NavPvt>(rates).into_packet_bytes().to_vec(),
        "NavStatus" => CfgMsgAllPortsBuilder::set_rate_for::<NavStatus>(rates).into_packet_bytes().to_vec(),
        "NavDop" => CfgMsgAllPortsBuilder::set_rate_for::<NavDop>(rates).into_packet_bytes().to_vec(),
        "NavEoe" => CfgMsgAllPortsBuilder::set_rate_for::<NavEoe>(rates).into_packet_bytes().to_vec(),
        "NavSolution" => CfgMsgAllPortsBuilder::set_rate_for::<NavSolution>(rates).into_packet_bytes().to_vec(),
        "NavSatSvInfo" => CfgMsgAllPortsBuilder::set_rate_for::<NavSatSvInfo>(rates).into_packet_bytes().to_vec(),
        "NavSat" => CfgMsgAllPortsBuilder::set_rate_for::<NavSat>(rates).into_packet_bytes().to_vec(),
        "NavOdo" => CfgMsgAllPortsBuilder::set_rate_for::<NavOdo>(rates).into_packet_bytes().to_vec(),
        "NavResetOdo" => CfgMsgAllPortsBuilder::set_rate_for::<NavResetOdo>(rates).into_packet_bytes().to_vec(),
        "CfgOdo" => CfgMsgAllPortsBuilder::set_rate_for::<CfgOdo>(rates).into_packet_bytes().to_vec(),
        "CfgItfm" => CfgMsgAllPortsBuilder::set_rate_for::<CfgItfm>(rates).into_packet_bytes().to_vec(),
        "CfgInf" => CfgMsgAllPortsBuilder::set_rate_for::<CfgInf>(rates).into_packet_bytes().to_vec(),
        "InfError" => CfgMsgAllPortsBuilder::set_rate_for::<InfError>(rates).into_packet_bytes().to_vec(),
        "InfNotice" => CfgMsgAllPortsBuilder::set_rate_for::<InfNotice>(rates).into_packet_bytes().to_vec(),
        "InfTest" => CfgMsgAllPortsBuilder::set_rate_for::<InfTest>(rates).into_packet_bytes().to_vec(),
        "InfWarning" => CfgMsgAllPortsBuilder::set_rate_for::<InfWarning>(rates).into_packet_bytes().to_vec(),
        "InfDebug" => CfgMsgAllPortsBuilder::set_rate_for::<InfDebug>(rates).into_packet_bytes().to_vec(),
        "AidIni" => CfgMsgAllPortsBuilder::set_rate_for::<AidIni>(rates).into_packet_bytes().to_vec(),
        "AlpSrv" => CfgMsgAllPortsBuilder::set_rate_for::<AlpSrv>(rates).into_packet_bytes().to_vec(),
        "AckAck" => CfgMsgAllPortsBuilder::set_rate_for::<AckAck>(rates).into_packet_bytes().to_vec(),
        "AckNak" => CfgMsgAllPortsBuilder::set_rate_for::<AckNak>(rates).into_packet_bytes().to_vec(),
        "CfgRst" => CfgMsgAllPortsBuilder::set_rate_for::<CfgRst>(rates).into_packet_bytes().to_vec(),
        "CfgAnt" => CfgMsgAllPortsBuilder::set_rate_for::<CfgAnt>(rates).into_packet_bytes().to_vec(),
        "CfgTp5" => CfgMsgAllPortsBuilder::set_rate_for::<CfgTp5>(rates).into_packet_bytes().to_vec(),
        "CfgTmode2" => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode2>(rates).into_packet_bytes().to_vec(),
        "TimSvin" => CfgMsgAllPortsBuilder::set_rate_for::<TimSvin>(rates).into_packet_bytes().to_vec(),
        "NavTimeLs" => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeLs>(rates).into_packet_bytes().to_vec(),
        "CfgTmode3" => CfgMsgAllPortsBuilder::set_rate_for::<CfgTmode3>(rates).into_packet_bytes().to_vec(),
        "CfgValSet" => CfgMsgAllPortsBuilder::set_rate_for::<CfgValSet>(rates).into_packet_bytes().to_vec(),
        "CfgPrtI2c" => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtI2c>(rates).into_packet_bytes().to_vec(),
        "CfgPrtUart" => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtUart>(rates).into_packet_bytes().to_vec(),
        "CfgPrtSpi" => CfgMsgAllPortsBuilder::set_rate_for::<CfgPrtSpi>(rates).into_packet_bytes().to_vec(),
        "NavTimeUTC" => CfgMsgAllPortsBuilder::set_rate_for::<NavTimeUTC>(rates).into_packet_bytes().to_vec(),
        "CfgRate" => CfgMsgAllPortsBuilder::set_rate_for::<CfgRate>(rates).into_packet_bytes().to_vec(),
        "CfgMsgSinglePort" => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgSinglePort>(rates).into_packet_bytes().to_vec(),
        "CfgMsgAllPorts" => CfgMsgAllPortsBuilder::set_rate_for::<CfgMsgAllPorts>(rates).into_packet_bytes().to_vec(),
        "CfgNav5" => CfgMsgAllPortsBuilder::set_rate_for::<CfgNav5>(rates).into_packet_bytes().to_vec(),
        "CfgNavX5" => CfgMsgAllPortsBuilder::set_rate_for::<CfgNavX5>(rates).into_packet_bytes().to_vec(),
        "MgaAck" => CfgMsgAllPortsBuilder::set_rate_for::<MgaAck>(rates).into_packet_bytes().to_vec(),
        "MgaGloEph" => CfgMsgAllPortsBuilder::set_rate_for::<MgaGloEph>(rates).into_packet_bytes().to_vec(),
        "MgaGpsIono" => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsIono>(rates).into_packet_bytes().to_vec(),
        "MgaGpsEph" => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEph>(rates).into_packet_bytes().to_vec(),
        "TimTp" => CfgMsgAllPortsBuilder::set_rate_for::<TimTp>(rates).into_packet_bytes().to_vec(),
        "TimTm2" => CfgMsgAllPortsBuilder::set_rate_for::<TimTm2>(rates).into_packet_bytes().to_vec(),
        "RxmRawx" => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawx>(rates).into_packet_bytes().to_vec(),
        "MonHw" => CfgMsgAllPortsBuilder::set_rate_for::<MonHw>(rates).into_packet_bytes().to_vec(),
        "MonGnss" => CfgMsgAllPortsBuilder::set_rate_for::<MonGnss>(rates).into_packet_bytes().to_vec(),
        "MonVer" => CfgMsgAllPortsBuilder::set_rate_for::<MonVer>(rates).into_packet_bytes().to_vec(),
        "RxmRtcm" => CfgMsgAllPortsBuilder::set_rate_for::<RxmRtcm>(rates).into_packet_bytes().to_vec(),
        "EsfMeas" => CfgMsgAllPortsBuilder::set_rate_for::<EsfMeas>(rates).into_packet_bytes().to_vec(),
        "EsfRaw" => CfgMsgAllPortsBuilder::set_rate_for::<EsfRaw>(rates).into_packet_bytes().to_vec(),
        "EsfIns" => CfgMsgAllPortsBuilder::set_rate_for::<EsfIns>(rates).into_packet_bytes().to_vec(),
        "HnrAtt" => CfgMsgAllPortsBuilder::set_rate_for::<HnrAtt>(rates).into_packet_bytes().to_vec(),
        "HnrIns" => CfgMsgAllPortsBuilder::set_rate_for::<HnrIns>(rates).into_packet_bytes().to_vec(),
        "HnrPvt" => CfgMsgAllPortsBuilder::set_rate_for::<HnrPvt>(rates).into_packet_bytes().to_vec(),
        "NavAtt" => CfgMsgAllPortsBuilder::set_rate_for::<NavAtt>(rates).into_packet_bytes().to_vec(),
        "NavClock" => CfgMsgAllPortsBuilder::set_rate_for::<NavClock>(rates).into_packet_bytes().to_vec(),
        "RxmSfrbx" => CfgMsgAllPortsBuilder::set_rate_for::<RxmSfrbx>(rates).into_packet_bytes().to_vec(),
        "NavVelECEF" => CfgMsgAllPortsBuilder::set_rate_for::<NavVelECEF>(rates).into_packet_bytes().to_vec(),
        "MgaGpsEPH" => CfgMsgAllPortsBuilder::set_rate_for::<MgaGpsEPH>(rates).into_packet_bytes().to_vec(),
        "RxmRawxInfo" => CfgMsgAllPortsBuilder::set_rate_for::<RxmRawxInfo>(rates).into_packet_bytes().to_vec(),
        "SecUniqId" => CfgMsgAllPortsBuilder::set_rate_for::<SecUniqId>(rates).into_packet_bytes().to_vec(),
        _ => panic!("harness: no packet {}", name),
    }
}

