// Generated by tools/gen.py from spec/*.json; do not edit.
#![allow(clippy::all)]
use crate::cfgv::*;
use ublox::cfg_val::*;

pub static KEYS: &[Key] = &[
    Key { name: "Uart1Baudrate", key: 0x40520001, ty: VTy::U32 },
    Key { name: "Uart1StopBits", key: 0x20520002, ty: VTy::StopBits },
    Key { name: "Uart1DataBits", key: 0x20520003, ty: VTy::DataBits },
    Key { name: "Uart1Parity", key: 0x20520004, ty: VTy::Parity },
    Key { name: "Uart1Enabled", key: 0x10520005, ty: VTy::Bool },
    Key { name: "Uart1InProtUbx", key: 0x10730001, ty: VTy::Bool },
    Key { name: "Uart1InProtNmea", key: 0x10730002, ty: VTy::Bool },
    Key { name: "Uart1InProtRtcm3x", key: 0x10730004, ty: VTy::Bool },
    Key { name: "Uart1OutProtUbx", key: 0x10740001, ty: VTy::Bool },
    Key { name: "Uart1OutProtNmea", key: 0x10740002, ty: VTy::Bool },
    Key { name: "Uart1OutProtRtcm3x", key: 0x10740004, ty: VTy::Bool },
    Key { name: "Uart2Baudrate", key: 0x40530001, ty: VTy::U32 },
    Key { name: "Uart2StopBits", key: 0x20530002, ty: VTy::StopBits },
    Key { name: "Uart2DataBits", key: 0x20530003, ty: VTy::DataBits },
    Key { name: "Uart2Parity", key: 0x20530004, ty: VTy::Parity },
    Key { name: "Uart2Enabled", key: 0x10530005, ty: VTy::Bool },
    Key { name: "Uart2Remap", key: 0x10530006, ty: VTy::Bool },
    Key { name: "Uart2InProtUbx", key: 0x10750001, ty: VTy::Bool },
    Key { name: "Uart2InProtNmea", key: 0x10750002, ty: VTy::Bool },
    Key { name: "Uart2InProtRtcm3x", key: 0x10750004, ty: VTy::Bool },
    Key { name: "Uart2OutProtUbx", key: 0x10760001, ty: VTy::Bool },
    Key { name: "Uart2OutProtNmea", key: 0x10760002, ty: VTy::Bool },
    Key { name: "Uart2OutProtRtcm3x", key: 0x10760004, ty: VTy::Bool },
    Key { name: "UsbEnabled", key: 0x10650001, ty: VTy::Bool },
    Key { name: "UsbSelfpow", key: 0x10650002, ty: VTy::Bool },
    Key { name: "UsbVendorId", key: 0x3065000a, ty: VTy::U16 },
    Key { name: "UsbProductId", key: 0x3065000b, ty: VTy::U16 },
    Key { name: "UsbPower", key: 0x3065000c, ty: VTy::U16 },
    Key { name: "UsbVendorStr0", key: 0x5065000d, ty: VTy::U64 },
    Key { name: "UsbVendorStr1", key: 0x5065000e, ty: VTy::U64 },
    Key { name: "UsbVendorStr2", key: 0x5065000f, ty: VTy::U64 },
    Key { name: "UsbVendorStr3", key: 0x50650010, ty: VTy::U64 },
    Key { name: "UsbProductStr0", key: 0x50650011, ty: VTy::U64 },
    Key { name: "UsbProductStr1", key: 0x50650012, ty: VTy::U64 },
    Key { name: "UsbProductStr2", key: 0x50650013, ty: VTy::U64 },
    Key { name: "UsbProductStr3", key: 0x50650014, ty: VTy::U64 },
    Key { name: "UsbSerialNoStr0", key: 0x50650015, ty: VTy::U64 },
    Key { name: "UsbSerialNoStr1", key: 0x50650016, ty: VTy::U64 },
    Key { name: "UsbSerialNoStr2", key: 0x50650017, ty: VTy::U64 },
    Key { name: "UsbSerialNoStr3", key: 0x50650018, ty: VTy::U64 },
    Key { name: "UsbinprotUbx", key: 0x10770001, ty: VTy::Bool },
    Key { name: "UsbinprotNmea", key: 0x10770002, ty: VTy::Bool },
    Key { name: "UsbinprotRtcm3X", key: 0x10770004, ty: VTy::Bool },
    Key { name: "UsbOutProtUbx", key: 0x10780001, ty: VTy::Bool },
    Key { name: "UsbOutProtNmea", key: 0x10780002, ty: VTy::Bool },
    Key { name: "UsbOutProtRtcm3x", key: 0x10780004, ty: VTy::Bool },
    Key { name: "InfmsgUbxI2c", key: 0x20920001, ty: VTy::CfgInfMask },
    Key { name: "InfmsgUbxUart1", key: 0x20920002, ty: VTy::CfgInfMask },
    Key { name: "InfmsgUbxUart2", key: 0x20920003, ty: VTy::CfgInfMask },
    Key { name: "InfmsgUbxUsb", key: 0x20920004, ty: VTy::CfgInfMask },
    Key { name: "InfmsgUbxSpi", key: 0x20920005, ty: VTy::CfgInfMask },
    Key { name: "InfmsgNmeaI2c", key: 0x20920006, ty: VTy::CfgInfMask },
    Key { name: "InfmsgNmeaUart1", key: 0x20920007, ty: VTy::CfgInfMask },
    Key { name: "InfmsgNmeaUart2", key: 0x20920008, ty: VTy::CfgInfMask },
    Key { name: "InfmsgNmeaUsb", key: 0x20920009, ty: VTy::CfgInfMask },
    Key { name: "InfmsgNmeaSpi", key: 0x2092000a, ty: VTy::CfgInfMask },
    Key { name: "RateMeas", key: 0x30210001, ty: VTy::U16 },
    Key { name: "RateNav", key: 0x30210002, ty: VTy::U16 },
    Key { name: "RateTimeref", key: 0x20210003, ty: VTy::AlignmentToReferenceTime },
    Key { name: "MsgoutNmeaIdDtmI2c", key: 0x209100a6, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdDtmSpi", key: 0x209100aa, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdDtmUart1", key: 0x209100a7, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdDtmUart2", key: 0x209100a8, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdDtmUsb", key: 0x209100a9, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGbsI2c", key: 0x209100dd, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGbsSpi", key: 0x209100e1, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGbsUart1", key: 0x209100de, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGbsUart2", key: 0x209100df, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGbsUsb", key: 0x209100e0, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGgaI2c", key: 0x209100ba, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGgaSpi", key: 0x209100be, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGgaUart1", key: 0x209100bb, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGgaUart2", key: 0x209100bc, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGgaUsb", key: 0x209100bd, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGllI2c", key: 0x209100c9, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGllSpi", key: 0x209100cd, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGllUart1", key: 0x209100ca, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGllUart2", key: 0x209100cb, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGllUsb", key: 0x209100cc, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGnsI2c", key: 0x209100b5, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGnsSpi", key: 0x209100b9, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGnsUart1", key: 0x209100b6, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGnsUart2", key: 0x209100b7, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGnsUsb", key: 0x209100b8, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGrsI2c", key: 0x209100ce, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGrsSpi", key: 0x209100d2, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGrsUart1", key: 0x209100cf, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGrsUart2", key: 0x209100d0, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGrsUsb", key: 0x209100d1, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsaI2c", key: 0x209100bf, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsaSpi", key: 0x209100c3, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsaUart1", key: 0x209100c0, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsaUart2", key: 0x209100c1, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsaUsb", key: 0x209100c2, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGstI2c", key: 0x209100d3, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGstSpi", key: 0x209100d7, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGstUart1", key: 0x209100d4, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGstUart2", key: 0x209100d5, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGstUsb", key: 0x209100d6, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsvI2c", key: 0x209100c4, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsvSpi", key: 0x209100c8, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsvUart1", key: 0x209100c5, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsvUart2", key: 0x209100c6, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdGsvUsb", key: 0x209100c7, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdRmcI2c", key: 0x209100ab, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdRmcSpi", key: 0x209100af, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdRmcUart1", key: 0x209100ac, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdRmcUart2", key: 0x209100ad, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdRmcUsb", key: 0x209100ae, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVlwI2c", key: 0x209100e7, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVlwSpi", key: 0x209100eb, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVlwUart1", key: 0x209100e8, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVlwUart2", key: 0x209100e9, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVlwUsb", key: 0x209100ea, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVtgI2c", key: 0x209100b0, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVtgSpi", key: 0x209100b4, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVtgUart1", key: 0x209100b1, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVtgUart2", key: 0x209100b2, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdVtgUsb", key: 0x209100b3, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdZdaI2c", key: 0x209100d8, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdZdaSpi", key: 0x209100dc, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdZdaUart1", key: 0x209100d9, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdZdaUart2", key: 0x209100da, ty: VTy::U8 },
    Key { name: "MsgoutNmeaIdZdaUsb", key: 0x209100db, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolypI2c", key: 0x209100ec, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolypSpi", key: 0x209100f0, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolypUart1", key: 0x209100ed, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolypUart2", key: 0x209100ee, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolypUsb", key: 0x209100ef, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolysI2c", key: 0x209100f1, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolysSpi", key: 0x209100f5, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolysUart1", key: 0x209100f2, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolysUart2", key: 0x209100f3, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolysUsb", key: 0x209100f4, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolytI2c", key: 0x209100f6, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolytSpi", key: 0x209100fa, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolytUart1", key: 0x209100f7, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolytUart2", key: 0x209100f8, ty: VTy::U8 },
    Key { name: "MsgoutPubxIdPolytUsb", key: 0x209100f9, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1005I2c", key: 0x209102bd, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1005Spi", key: 0x209102c1, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1005Uart1", key: 0x209102be, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1005Uart2", key: 0x209102bf, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1005Usb", key: 0x209102c0, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1074I2c", key: 0x2091035e, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1074Spi", key: 0x20910362, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1074Uart1", key: 0x2091035f, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1074Uart2", key: 0x20910360, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1074Usb", key: 0x20910361, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1077I2c", key: 0x209102cc, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1077Spi", key: 0x209102d0, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1077Uart1", key: 0x209102cd, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1077Uart2", key: 0x209102ce, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1077Usb", key: 0x209102cf, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1084I2c", key: 0x20910363, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1084Spi", key: 0x20910367, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1084Uart1", key: 0x20910364, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1084Uart2", key: 0x20910365, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1084Usb", key: 0x20910366, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1087I2c", key: 0x209102d1, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1087Spi", key: 0x209102d5, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1087Uart1", key: 0x209102d2, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1087Uart2", key: 0x209102d3, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1087Usb", key: 0x209102d4, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1094I2c", key: 0x20910368, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1094Spi", key: 0x2091036c, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1094Uart1", key: 0x20910369, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1094Uart2", key: 0x2091036a, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1094Usb", key: 0x2091036b, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1097I2c", key: 0x20910318, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1097Spi", key: 0x2091031c, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1097Uart1", key: 0x20910319, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1097Uart2", key: 0x2091031a, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1097Usb", key: 0x2091031b, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1124I2c", key: 0x2091036d, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1124Spi", key: 0x20910371, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1124Uart1", key: 0x2091036e, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1124Uart2", key: 0x2091036f, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1124Usb", key: 0x20910370, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1127I2c", key: 0x209102d6, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1127Spi", key: 0x209102da, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1127Uart1", key: 0x209102d7, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1127Uart2", key: 0x209102d8, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1127Usb", key: 0x209102d9, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1230I2c", key: 0x20910303, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1230Spi", key: 0x20910307, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1230Uart1", key: 0x20910304, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1230Uart2", key: 0x20910305, ty: VTy::U8 },
    Key { name: "MsgoutRtcm3xType1230Usb", key: 0x20910306, ty: VTy::U8 },
    Key { name: "MsgoutUbxLogInfoI2c", key: 0x20910259, ty: VTy::U8 },
    Key { name: "MsgoutUbxLogInfoSpi", key: 0x2091025d, ty: VTy::U8 },
    Key { name: "MsgoutUbxLogInfoUart1", key: 0x2091025a, ty: VTy::U8 },
    Key { name: "MsgoutUbxLogInfoUart2", key: 0x2091025b, ty: VTy::U8 },
    Key { name: "MsgoutUbxLogInfoUsb", key: 0x2091025c, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonCommsI2c", key: 0x2091034f, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonCommsSpi", key: 0x20910353, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonCommsUart1", key: 0x20910350, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonCommsUart2", key: 0x20910351, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonCommsUsb", key: 0x20910352, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw2I2c", key: 0x209101b9, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw2Spi", key: 0x209101bd, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw2Uart1", key: 0x209101ba, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw2Uart2", key: 0x209101bb, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw2Usb", key: 0x209101bc, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw3I2c", key: 0x20910354, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw3Spi", key: 0x20910358, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw3Uart1", key: 0x20910355, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw3Uart2", key: 0x20910356, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHw3Usb", key: 0x20910357, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHwI2c", key: 0x209101b4, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHwSpi", key: 0x209101b8, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHwUart1", key: 0x209101b5, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHwUart2", key: 0x209101b6, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonHwUsb", key: 0x209101b7, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonIoI2c", key: 0x209101a5, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonIoSpi", key: 0x209101a9, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonIoUart1", key: 0x209101a6, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonIoUart2", key: 0x209101a7, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonIoUsb", key: 0x209101a8, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonMsgPpI2c", key: 0x20910196, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonMsgPpSpi", key: 0x2091019a, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonMsgPpUart1", key: 0x20910197, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonMsgPpUart2", key: 0x20910198, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonMsgPpUsb", key: 0x20910199, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRfI2c", key: 0x20910359, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRfSpi", key: 0x2091035d, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRfUart1", key: 0x2091035a, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRfUart2", key: 0x2091035b, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRfUsb", key: 0x2091035c, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxbufI2c", key: 0x209101a0, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxbufSpi", key: 0x209101a4, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxbufUart1", key: 0x209101a1, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxbufUart2", key: 0x209101a2, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxbufUsb", key: 0x209101a3, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxrI2c", key: 0x20910187, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxrSpi", key: 0x2091018b, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxrUart1", key: 0x20910188, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxrUart2", key: 0x20910189, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonRxrUsb", key: 0x2091018a, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonTxbufI2c", key: 0x2091019b, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonTxbufSpi", key: 0x2091019f, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonTxbufUart1", key: 0x2091019c, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonTxbufUart2", key: 0x2091019d, ty: VTy::U8 },
    Key { name: "MsgoutUbxMonTxbufUsb", key: 0x2091019e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavClockI2c", key: 0x20910065, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavClockSpi", key: 0x20910069, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavClockUart1", key: 0x20910066, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavClockUart2", key: 0x20910067, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavClockUsb", key: 0x20910068, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavDopI2c", key: 0x20910038, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavDopSpi", key: 0x2091003c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavDopUart1", key: 0x20910039, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavDopUart2", key: 0x2091003a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavDopUsb", key: 0x2091003b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavEoeI2c", key: 0x2091015f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavEoeSpi", key: 0x20910163, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavEoeUart1", key: 0x20910160, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavEoeUart2", key: 0x20910161, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavEoeUsb", key: 0x20910162, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavGeofenceI2c", key: 0x209100a1, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavGeofenceSpi", key: 0x209100a5, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavGeofenceUart1", key: 0x209100a2, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavGeofenceUart2", key: 0x209100a3, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavGeofenceUsb", key: 0x209100a4, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosEcefI2c", key: 0x2091002e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosEcefSpi", key: 0x20910032, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosEcefUart1", key: 0x2091002f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosEcefUart2", key: 0x20910030, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosEcefUsb", key: 0x20910031, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosllhI2c", key: 0x20910033, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosllhSpi", key: 0x20910037, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosllhUart1", key: 0x20910034, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosllhUart2", key: 0x20910035, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavHpPosllhUsb", key: 0x20910036, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOdoI2c", key: 0x2091007e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOdoSpi", key: 0x20910082, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOdoUart1", key: 0x2091007f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOdoUart2", key: 0x20910080, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOdoUsb", key: 0x20910081, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOrbI2c", key: 0x20910010, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOrbSpi", key: 0x20910014, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOrbUart1", key: 0x20910011, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOrbUart2", key: 0x20910012, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavOrbUsb", key: 0x20910013, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosEcefI2c", key: 0x20910024, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosEcefSpi", key: 0x20910028, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosEcefUart1", key: 0x20910025, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosEcefUart2", key: 0x20910026, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosEcefUsb", key: 0x20910027, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosLlhI2c", key: 0x20910029, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosLlhSpi", key: 0x2091002d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosLlhUart1", key: 0x2091002a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosLlhUart2", key: 0x2091002b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPosLlhUsb", key: 0x2091002c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPvtI2c", key: 0x20910006, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPvtSpi", key: 0x2091000a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPvtUart1", key: 0x20910007, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPvtUart2", key: 0x20910008, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavPvtUsb", key: 0x20910009, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavRelposnedI2c", key: 0x2091008d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavRelposnedSpi", key: 0x20910091, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavRelposnedUart1", key: 0x2091008e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavRelposnedUart2", key: 0x2091008f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavRelposnedUsb", key: 0x20910090, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSatI2c", key: 0x20910015, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSatSpi", key: 0x20910019, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSatUart1", key: 0x20910016, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSatUart2", key: 0x20910017, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSatUsb", key: 0x20910018, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSigI2c", key: 0x20910345, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSigSpi", key: 0x20910349, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSigUart1", key: 0x20910346, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSigUart2", key: 0x20910347, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSigUsb", key: 0x20910348, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavStatusI2c", key: 0x2091001a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavStatusSpi", key: 0x2091001e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavStatusUart1", key: 0x2091001b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavStatusUart2", key: 0x2091001c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavStatusUsb", key: 0x2091001d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSvinI2c", key: 0x20910088, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSvinSpi", key: 0x2091008c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSvinUart1", key: 0x20910089, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSvinUart2", key: 0x2091008a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavSvinUsb", key: 0x2091008b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeBdsI2c", key: 0x20910051, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeBdsSpi", key: 0x20910055, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeBdsUart1", key: 0x20910052, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeBdsUart2", key: 0x20910053, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeBdsUsb", key: 0x20910054, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGalI2c", key: 0x20910056, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGalSpi", key: 0x2091005a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGalUart1", key: 0x20910057, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGalUart2", key: 0x20910058, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGalUsb", key: 0x20910059, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGloI2c", key: 0x2091004c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGloSpi", key: 0x20910050, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGloUart1", key: 0x2091004d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGloUart2", key: 0x2091004e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGloUsb", key: 0x2091004f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGpsI2c", key: 0x20910047, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGpsSpi", key: 0x2091004b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGpsUart1", key: 0x20910048, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGpsUart2", key: 0x20910049, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeGpsUsb", key: 0x2091004a, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeLsI2c", key: 0x20910060, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeLsSpi", key: 0x20910064, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeLsUart1", key: 0x20910061, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeLsUart2", key: 0x20910062, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeLsUsb", key: 0x20910063, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeUtcI2c", key: 0x2091005b, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeUtcSpi", key: 0x2091005f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeUtcUart1", key: 0x2091005c, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeUtcUart2", key: 0x2091005d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavTimeUtcUsb", key: 0x2091005e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelEcefI2c", key: 0x2091003d, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelEcefSpi", key: 0x20910041, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelEcefUart1", key: 0x2091003e, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelEcefUart2", key: 0x2091003f, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelEcefUsb", key: 0x20910040, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelNedI2c", key: 0x20910042, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelNedSpi", key: 0x20910046, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelNedUart1", key: 0x20910043, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelNedUart2", key: 0x20910044, ty: VTy::U8 },
    Key { name: "MsgoutUbxNavVelNedUsb", key: 0x20910045, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmMeasxI2c", key: 0x20910204, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmMeasxSpi", key: 0x20910208, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmMeasxUart1", key: 0x20910205, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmMeasxUart2", key: 0x20910206, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmMeasxUsb", key: 0x20910207, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRawxI2c", key: 0x209102a4, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRawxSpi", key: 0x209102a8, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRawxUart1", key: 0x209102a5, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRawxUart2", key: 0x209102a6, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRawxUsb", key: 0x209102a7, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRlmI2c", key: 0x2091025e, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRlmSpi", key: 0x20910262, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRlmUart1", key: 0x2091025f, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRlmUart2", key: 0x20910260, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRlmUsb", key: 0x20910261, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRtcmI2c", key: 0x20910268, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRtcmSpi", key: 0x2091026c, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRtcmUart1", key: 0x20910269, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRtcmUart2", key: 0x2091026a, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmRtcmUsb", key: 0x2091026b, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmSfrbxI2c", key: 0x20910231, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmSfrbxSpi", key: 0x20910235, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmSfrbxUart1", key: 0x20910232, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmSfrbxUart2", key: 0x20910233, ty: VTy::U8 },
    Key { name: "MsgoutUbxRxmSfrbxUsb", key: 0x20910234, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTm2I2c", key: 0x20910178, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTm2Spi", key: 0x2091017c, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTm2Uart1", key: 0x20910179, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTm2Uart2", key: 0x2091017a, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTm2Usb", key: 0x2091017b, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTpI2c", key: 0x2091017d, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTpSpi", key: 0x20910181, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTpUart1", key: 0x2091017e, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTpUart2", key: 0x2091017f, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimTpUsb", key: 0x20910180, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimVrfyI2c", key: 0x20910092, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimVrfySpi", key: 0x20910096, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimVrfyUart1", key: 0x20910093, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimVrfyUart2", key: 0x20910094, ty: VTy::U8 },
    Key { name: "MsgoutUbxTimVrfyUsb", key: 0x20910095, ty: VTy::U8 },
    Key { name: "SignalGpsEna", key: 0x1031001f, ty: VTy::Bool },
    Key { name: "SignalGpsL1caEna", key: 0x10310001, ty: VTy::Bool },
    Key { name: "SignalGpsL2cEna", key: 0x10310003, ty: VTy::Bool },
    Key { name: "SignalGalEna", key: 0x10310021, ty: VTy::Bool },
    Key { name: "SignalGalE1Ena", key: 0x10310007, ty: VTy::Bool },
    Key { name: "SignalGalE5bEna", key: 0x1031000a, ty: VTy::Bool },
    Key { name: "SignalBdsEna", key: 0x10310022, ty: VTy::Bool },
    Key { name: "SignalBdsB1Ena", key: 0x1031000d, ty: VTy::Bool },
    Key { name: "SignalBdsB2Ena", key: 0x1031000e, ty: VTy::Bool },
    Key { name: "SignalQzssEna", key: 0x10310024, ty: VTy::Bool },
    Key { name: "SignalQzssL1caEna", key: 0x10310012, ty: VTy::Bool },
    Key { name: "SignalQzssL2cEna", key: 0x10310015, ty: VTy::Bool },
    Key { name: "SignalGloEna", key: 0x10310025, ty: VTy::Bool },
    Key { name: "SignalGloL1Ena", key: 0x10310018, ty: VTy::Bool },
    Key { name: "SignalGLoL2Ena", key: 0x1031001a, ty: VTy::Bool },
    Key { name: "TpPulseDef", key: 0x20050023, ty: VTy::TpPulse },
    Key { name: "TpPulseLengthDef", key: 0x20050030, ty: VTy::TpPulseLength },
    Key { name: "TpAntCableDelay", key: 0x30050001, ty: VTy::I16 },
    Key { name: "TpPeriodTp1", key: 0x40050002, ty: VTy::U32 },
    Key { name: "TpPeriodLockTp1", key: 0x40050003, ty: VTy::U32 },
    Key { name: "TpFreqTp1", key: 0x40050024, ty: VTy::U32 },
    Key { name: "TpFreqLockTp1", key: 0x40050025, ty: VTy::U32 },
    Key { name: "TpLenTp1", key: 0x40050004, ty: VTy::U32 },
    Key { name: "TpLenLockTp1", key: 0x40050005, ty: VTy::U32 },
    Key { name: "TpTp1Ena", key: 0x10050007, ty: VTy::Bool },
    Key { name: "TpSyncGnssTp1", key: 0x10050008, ty: VTy::Bool },
    Key { name: "TpUseLockedTp1", key: 0x10050009, ty: VTy::Bool },
    Key { name: "TpAlignToTowTp1", key: 0x1005000a, ty: VTy::Bool },
    Key { name: "TpPolTp1", key: 0x1005000b, ty: VTy::Bool },
    Key { name: "TpTimegridTp1", key: 0x2005000c, ty: VTy::AlignmentToReferenceTime },
];

pub fn make(idx: usize, v: u64) -> CfgVal {
    match idx {
        0 => CfgVal::Uart1Baudrate(mk_u32(v)),
        1 => CfgVal::Uart1StopBits(mk_stopbits(v)),
        2 => CfgVal::Uart1DataBits(mk_databits(v)),
        3 => CfgVal::Uart1Parity(mk_parity(v)),
        4 => CfgVal::Uart1Enabled(mk_bool(v)),
        5 => CfgVal::Uart1InProtUbx(mk_bool(v)),
        6 => CfgVal::Uart1InProtNmea(mk_bool(v)),
        7 => CfgVal::Uart1InProtRtcm3x(mk_bool(v)),
        8 => CfgVal::Uart1OutProtUbx(mk_bool(v)),
        9 => CfgVal::Uart1OutProtNmea(mk_bool(v)),
        10 => CfgVal::Uart1OutProtRtcm3x(mk_bool(v)),
        11 => CfgVal::Uart2Baudrate(mk_u32(v)),
        12 => CfgVal::Uart2StopBits(mk_stopbits(v)),
        13 => CfgVal::Uart2DataBits(mk_databits(v)),
        14 => CfgVal::Uart2Parity(mk_parity(v)),
        15 => CfgVal::Uart2Enabled(mk_bool(v)),
        16 => CfgVal::Uart2Remap(mk_bool(v)),
        17 => CfgVal::Uart2InProtUbx(mk_bool(v)),
        18 => CfgVal::Uart2InProtNmea(mk_bool(v)),
        19 => CfgVal::Uart2InProtRtcm3x(mk_bool(v)),
        20 => CfgVal::Uart2OutProtUbx(mk_bool(v)),
        21 => CfgVal::Uart2OutProtNmea(mk_bool(v)),
        22 => CfgVal::Uart2OutProtRtcm3x(mk_bool(v)),
        23 => CfgVal::UsbEnabled(mk_bool(v)),
        24 => CfgVal::UsbSelfpow(mk_bool(v)),
        25 => CfgVal::UsbVendorId(mk_u16(v)),
        26 => CfgVal::UsbProductId(mk_u16(v)),
        27 => CfgVal::UsbPower(mk_u16(v)),
        28 => CfgVal::UsbVendorStr0(mk_u64(v)),
        29 => CfgVal::UsbVendorStr1(mk_u64(v)),
        30 => CfgVal::UsbVendorStr2(mk_u64(v)),
        31 => CfgVal::UsbVendorStr3(mk_u64(v)),
        32 => CfgVal::UsbProductStr0(mk_u64(v)),
        33 => CfgVal::UsbProductStr1(mk_u64(v)),
        34 => CfgVal::UsbProductStr2(mk_u64(v)),
        35 => CfgVal::UsbProductStr3(mk_u64(v)),
        36 => CfgVal::UsbSerialNoStr0(mk_u64(v)),
        37 => CfgVal::UsbSerialNoStr1(mk_u64(v)),
        38 => CfgVal::UsbSerialNoStr2(mk_u64(v)),
        39 => CfgVal::UsbSerialNoStr3(mk_u64(v)),
        40 => CfgVal::UsbinprotUbx(mk_bool(v)),
        41 => CfgVal::UsbinprotNmea(mk_bool(v)),
        42 => CfgVal::UsbinprotRtcm3X(mk_bool(v)),
        43 => CfgVal::UsbOutProtUbx(mk_bool(v)),
        44 => CfgVal::UsbOutProtNmea(mk_bool(v)),
        45 => CfgVal::UsbOutProtRtcm3x(mk_bool(v)),
        46 => CfgVal::InfmsgUbxI2c(mk_cfginfmask(v)),
        47 => CfgVal::InfmsgUbxUart1(mk_cfginfmask(v)),
        48 => CfgVal::InfmsgUbxUart2(mk_cfginfmask(v)),
        49 => CfgVal::InfmsgUbxUsb(mk_cfginfmask(v)),
        50 => CfgVal::InfmsgUbxSpi(mk_cfginfmask(v)),
        51 => CfgVal::InfmsgNmeaI2c(mk_cfginfmask(v)),
        52 => CfgVal::InfmsgNmeaUart1(mk_cfginfmask(v)),
        53 => CfgVal::InfmsgNmeaUart2(mk_cfginfmask(v)),
        54 => CfgVal::InfmsgNmeaUsb(mk_cfginfmask(v)),
        55 => CfgVal::InfmsgNmeaSpi(mk_cfginfmask(v)),
        56 => CfgVal::RateMeas(mk_u16(v)),
        57 => CfgVal::RateNav(mk_u16(v)),
        58 => CfgVal::RateTimeref(mk_alignmenttoreferencetime(v)),
        59 => CfgVal::MsgoutNmeaIdDtmI2c(mk_u8(v)),
        60 => CfgVal::MsgoutNmeaIdDtmSpi(mk_u8(v)),
        61 => CfgVal::MsgoutNmeaIdDtmUart1(mk_u8(v)),
        62 => CfgVal::MsgoutNmeaIdDtmUart2(mk_u8(v)),
        63 => CfgVal::MsgoutNmeaIdDtmUsb(mk_u8(v)),
        64 => CfgVal::MsgoutNmeaIdGbsI2c(mk_u8(v)),
        65 => CfgVal::MsgoutNmeaIdGbsSpi(mk_u8(v)),
        66 => CfgVal::MsgoutNmeaIdGbsUart1(mk_u8(v)),
        67 => CfgVal::MsgoutNmeaIdGbsUart2(mk_u8(v)),
        68 => CfgVal::MsgoutNmeaIdGbsUsb(mk_u8(v)),
        69 => CfgVal::MsgoutNmeaIdGgaI2c(mk_u8(v)),
        70 => CfgVal::MsgoutNmeaIdGgaSpi(mk_u8(v)),
        71 => CfgVal::MsgoutNmeaIdGgaUart1(mk_u8(v)),
        72 => CfgVal::MsgoutNmeaIdGgaUart2(mk_u8(v)),
        73 => CfgVal::MsgoutNmeaIdGgaUsb(mk_u8(v)),
        74 => CfgVal::MsgoutNmeaIdGllI2c(mk_u8(v)),
        75 => CfgVal::MsgoutNmeaIdGllSpi(mk_u8(v)),
        76 => CfgVal::MsgoutNmeaIdGllUart1(mk_u8(v)),
        77 => CfgVal::MsgoutNmeaIdGllUart2(mk_u8(v)),
        78 => CfgVal::MsgoutNmeaIdGllUsb(mk_u8(v)),
        79 => CfgVal::MsgoutNmeaIdGnsI2c(mk_u8(v)),
        80 => CfgVal::MsgoutNmeaIdGnsSpi(mk_u8(v)),
        81 => CfgVal::MsgoutNmeaIdGnsUart1(mk_u8(v)),
        82 => CfgVal::MsgoutNmeaIdGnsUart2(mk_u8(v)),
        83 => CfgVal::MsgoutNmeaIdGnsUsb(mk_u8(v)),
        84 => CfgVal::MsgoutNmeaIdGrsI2c(mk_u8(v)),
        85 => CfgVal::MsgoutNmeaIdGrsSpi(mk_u8(v)),
        86 => CfgVal::MsgoutNmeaIdGrsUart1(mk_u8(v)),
        87 => CfgVal::MsgoutNmeaIdGrsUart2(mk_u8(v)),
        88 => CfgVal::MsgoutNmeaIdGrsUsb(mk_u8(v)),
        89 => CfgVal::MsgoutNmeaIdGsaI2c(mk_u8(v)),
        90 => CfgVal::MsgoutNmeaIdGsaSpi(mk_u8(v)),
        91 => CfgVal::MsgoutNmeaIdGsaUart1(mk_u8(v)),
        92 => CfgVal::MsgoutNmeaIdGsaUart2(mk_u8(v)),
        93 => CfgVal::MsgoutNmeaIdGsaUsb(mk_u8(v)),
        94 => CfgVal::MsgoutNmeaIdGstI2c(mk_u8(v)),
        95 => CfgVal::MsgoutNmeaIdGstSpi(mk_u8(v)),
        96 => CfgVal::MsgoutNmeaIdGstUart1(mk_u8(v)),
        97 => CfgVal::MsgoutNmeaIdGstUart2(mk_u8(v)),
        98 => CfgVal::MsgoutNmeaIdGstUsb(mk_u8(v)),
        99 => CfgVal::MsgoutNmeaIdGsvI2c(mk_u8(v)),
        100 => CfgVal::MsgoutNmeaIdGsvSpi(mk_u8(v)),
        101 => CfgVal::MsgoutNmeaIdGsvUart1(mk_u8(v)),
        102 => CfgVal::MsgoutNmeaIdGsvUart2(mk_u8(v)),
        103 => CfgVal::MsgoutNmeaIdGsvUsb(mk_u8(v)),
        104 => CfgVal::MsgoutNmeaIdRmcI2c(mk_u8(v)),
        105 => CfgVal::MsgoutNmeaIdRmcSpi(mk_u8(v)),
        106 => CfgVal::MsgoutNmeaIdRmcUart1(mk_u8(v)),
        107 => CfgVal::MsgoutNmeaIdRmcUart2(mk_u8(v)),
        108 => CfgVal::MsgoutNmeaIdRmcUsb(mk_u8(v)),
        109 => CfgVal::MsgoutNmeaIdVlwI2c(mk_u8(v)),
        110 => CfgVal::MsgoutNmeaIdVlwSpi(mk_u8(v)),
        111 => CfgVal::MsgoutNmeaIdVlwUart1(mk_u8(v)),
        112 => CfgVal::MsgoutNmeaIdVlwUart2(mk_u8(v)),
        113 => CfgVal::MsgoutNmeaIdVlwUsb(mk_u8(v)),
        114 => CfgVal::MsgoutNmeaIdVtgI2c(mk_u8(v)),
        115 => CfgVal::MsgoutNmeaIdVtgSpi(mk_u8(v)),
        116 => CfgVal::MsgoutNmeaIdVtgUart1(mk_u8(v)),
        117 => CfgVal::MsgoutNmeaIdVtgUart2(mk_u8(v)),
        118 => CfgVal::MsgoutNmeaIdVtgUsb(mk_u8(v)),
        119 => CfgVal::MsgoutNmeaIdZdaI2c(mk_u8(v)),
        120 => CfgVal::MsgoutNmeaIdZdaSpi(mk_u8(v)),
        121 => CfgVal::MsgoutNmeaIdZdaUart1(mk_u8(v)),
        122 => CfgVal::MsgoutNmeaIdZdaUart2(mk_u8(v)),
        123 => CfgVal::MsgoutNmeaIdZdaUsb(mk_u8(v)),
        124 => CfgVal::MsgoutPubxIdPolypI2c(mk_u8(v)),
        125 => CfgVal::MsgoutPubxIdPolypSpi(mk_u8(v)),
        126 => CfgVal::MsgoutPubxIdPolypUart1(mk_u8(v)),
        127 => CfgVal::MsgoutPubxIdPolypUart2(mk_u8(v)),
        128 => CfgVal::MsgoutPubxIdPolypUsb(mk_u8(v)),
        129 => CfgVal::MsgoutPubxIdPolysI2c(mk_u8(v)),
        130 => CfgVal::MsgoutPubxIdPolysSpi(mk_u8(v)),
        131 => CfgVal::MsgoutPubxIdPolysUart1(mk_u8(v)),
        132 => CfgVal::MsgoutPubxIdPolysUart2(mk_u8(v)),
        133 => CfgVal::MsgoutPubxIdPolysUsb(mk_u8(v)),
        134 => CfgVal::MsgoutPubxIdPolytI2c(mk_u8(v)),
        135 => CfgVal::MsgoutPubxIdPolytSpi(mk_u8(v)),
        136 => CfgVal::MsgoutPubxIdPolytUart1(mk_u8(v)),
        137 => CfgVal::MsgoutPubxIdPolytUart2(mk_u8(v)),
        138 => CfgVal::MsgoutPubxIdPolytUsb(mk_u8(v)),
        139 => CfgVal::MsgoutRtcm3xType1005I2c(mk_u8(v)),
        140 => CfgVal::MsgoutRtcm3xType1005Spi(mk_u8(v)),
        141 => CfgVal::MsgoutRtcm3xType1005Uart1(mk_u8(v)),
        142 => CfgVal::MsgoutRtcm3xType1005Uart2(mk_u8(v)),
        143 => CfgVal::MsgoutRtcm3xType1005Usb(mk_u8(v)),
        144 => CfgVal::MsgoutRtcm3xType1074I2c(mk_u8(v)),
        145 => CfgVal::MsgoutRtcm3xType1074Spi(mk_u8(v)),
        146 => CfgVal::MsgoutRtcm3xType1074Uart1(mk_u8(v)),
        147 => CfgVal::MsgoutRtcm3xType1074Uart2(mk_u8(v)),
        148 => CfgVal::MsgoutRtcm3xType1074Usb(mk_u8(v)),
        149 => CfgVal::MsgoutRtcm3xType1077I2c(mk_u8(v)),
        150 => CfgVal::MsgoutRtcm3xType1077Spi(mk_u8(v)),
        151 => CfgVal::MsgoutRtcm3xType1077Uart1(mk_u8(v)),
        152 => CfgVal::MsgoutRtcm3xType1077Uart2(mk_u8(v)),
        153 => CfgVal::MsgoutRtcm3xType1077Usb(mk_u8(v)),
        154 => CfgVal::MsgoutRtcm3xType1084I2c(mk_u8(v)),
        155 => CfgVal::MsgoutRtcm3xType1084Spi(mk_u8(v)),
        156 => CfgVal::MsgoutRtcm3xType1084Uart1(mk_u8(v)),
        157 => CfgVal::MsgoutRtcm3xType1084Uart2(mk_u8(v)),
        158 => CfgVal::MsgoutRtcm3xType1084Usb(mk_u8(v)),
        159 => CfgVal::MsgoutRtcm3xType1087I2c(mk_u8(v)),
        160 => CfgVal::MsgoutRtcm3xType1087Spi(mk_u8(v)),
        161 => CfgVal::MsgoutRtcm3xType1087Uart1(mk_u8(v)),
        162 => CfgVal::MsgoutRtcm3xType1087Uart2(mk_u8(v)),
        163 => CfgVal::MsgoutRtcm3xType1087Usb(mk_u8(v)),
        164 => CfgVal::MsgoutRtcm3xType1094I2c(mk_u8(v)),
        165 => CfgVal::MsgoutRtcm3xType1094Spi(mk_u8(v)),
        166 => CfgVal::MsgoutRtcm3xType1094Uart1(mk_u8(v)),
        167 => CfgVal::MsgoutRtcm3xType1094Uart2(mk_u8(v)),
        168 => CfgVal::MsgoutRtcm3xType1094Usb(mk_u8(v)),
        169 => CfgVal::MsgoutRtcm3xType1097I2c(mk_u8(v)),
        170 => CfgVal::MsgoutRtcm3xType1097Spi(mk_u8(v)),
        171 => CfgVal::MsgoutRtcm3xType1097Uart1(mk_u8(v)),
        172 => CfgVal::MsgoutRtcm3xType1097Uart2(mk_u8(v)),
        173 => CfgVal::MsgoutRtcm3xType1097Usb(mk_u8(v)),
        174 => CfgVal::MsgoutRtcm3xType1124I2c(mk_u8(v)),
        175 => CfgVal::MsgoutRtcm3xType1124Spi(mk_u8(v)),
        176 => CfgVal::MsgoutRtcm3xType1124Uart1(mk_u8(v)),
        177 => CfgVal::MsgoutRtcm3xType1124Uart2(mk_u8(v)),
        178 => CfgVal::MsgoutRtcm3xType1124Usb(mk_u8(v)),
        179 => CfgVal::MsgoutRtcm3xType1127I2c(mk_u8(v)),
        180 => CfgVal::MsgoutRtcm3xType1127Spi(mk_u8(v)),
        181 => CfgVal::MsgoutRtcm3xType1127Uart1(mk_u8(v)),
        182 => CfgVal::MsgoutRtcm3xType1127Uart2(mk_u8(v)),
        183 => CfgVal::MsgoutRtcm3xType1127Usb(mk_u8(v)),
        184 => CfgVal::MsgoutRtcm3xType1230I2c(mk_u8(v)),
        185 => CfgVal::MsgoutRtcm3xType1230Spi(mk_u8(v)),
        186 => CfgVal::MsgoutRtcm3xType1230Uart1(mk_u8(v)),
        187 => CfgVal::MsgoutRtcm3xType1230Uart2(mk_u8(v)),
        188 => CfgVal::MsgoutRtcm3xType1230Usb(mk_u8(v)),
        189 => CfgVal::MsgoutUbxLogInfoI2c(mk_u8(v)),
        190 => CfgVal::MsgoutUbxLogInfoSpi(mk_u8(v)),
        191 => CfgVal::MsgoutUbxLogInfoUart1(mk_u8(v)),
        192 => CfgVal::MsgoutUbxLogInfoUart2(mk_u8(v)),
        193 => CfgVal::MsgoutUbxLogInfoUsb(mk_u8(v)),
        194 => CfgVal::MsgoutUbxMonCommsI2c(mk_u8(v)),
        195 => CfgVal::MsgoutUbxMonCommsSpi(mk_u8(v)),
        196 => CfgVal::MsgoutUbxMonCommsUart1(mk_u8(v)),
        197 => CfgVal::MsgoutUbxMonCommsUart2(mk_u8(v)),
        198 => CfgVal::MsgoutUbxMonCommsUsb(mk_u8(v)),
        199 => CfgVal::MsgoutUbxMonHw2I2c(mk_u8(v)),
        200 => CfgVal::MsgoutUbxMonHw2Spi(mk_u8(v)),
        201 => CfgVal::MsgoutUbxMonHw2Uart1(mk_u8(v)),
        202 => CfgVal::MsgoutUbxMonHw2Uart2(mk_u8(v)),
        203 => CfgVal::MsgoutUbxMonHw2Usb(mk_u8(v)),
        204 => CfgVal::MsgoutUbxMonHw3I2c(mk_u8(v)),
        205 => CfgVal::MsgoutUbxMonHw3Spi(mk_u8(v)),
        206 => CfgVal::MsgoutUbxMonHw3Uart1(mk_u8(v)),
        207 => CfgVal::MsgoutUbxMonHw3Uart2(mk_u8(v)),
        208 => CfgVal::MsgoutUbxMonHw3Usb(mk_u8(v)),
        209 => CfgVal::MsgoutUbxMonHwI2c(mk_u8(v)),
        210 => CfgVal::MsgoutUbxMonHwSpi(mk_u8(v)),
        211 => CfgVal::MsgoutUbxMonHwUart1(mk_u8(v)),
        212 => CfgVal::MsgoutUbxMonHwUart2(mk_u8(v)),
        213 => CfgVal::MsgoutUbxMonHwUsb(mk_u8(v)),
        214 => CfgVal::MsgoutUbxMonIoI2c(mk_u8(v)),
        215 => CfgVal::MsgoutUbxMonIoSpi(mk_u8(v)),
        216 => CfgVal::MsgoutUbxMonIoUart1(mk_u8(v)),
        217 => CfgVal::MsgoutUbxMonIoUart2(mk_u8(v)),
        218 => CfgVal::MsgoutUbxMonIoUsb(mk_u8(v)),
        219 => CfgVal::MsgoutUbxMonMsgPpI2c(mk_u8(v)),
        220 => CfgVal::MsgoutUbxMonMsgPpSpi(mk_u8(v)),
        221 => CfgVal::MsgoutUbxMonMsgPpUart1(mk_u8(v)),
        222 => CfgVal::MsgoutUbxMonMsgPpUart2(mk_u8(v)),
        223 => CfgVal::MsgoutUbxMonMsgPpUsb(mk_u8(v)),
        224 => CfgVal::MsgoutUbxMonRfI2c(mk_u8(v)),
        225 => CfgVal::MsgoutUbxMonRfSpi(mk_u8(v)),
        226 => CfgVal::MsgoutUbxMonRfUart1(mk_u8(v)),
        227 => CfgVal::MsgoutUbxMonRfUart2(mk_u8(v)),
        228 => CfgVal::MsgoutUbxMonRfUsb(mk_u8(v)),
        229 => CfgVal::MsgoutUbxMonRxbufI2c(mk_u8(v)),
        230 => CfgVal::MsgoutUbxMonRxbufSpi(mk_u8(v)),
        231 => CfgVal::MsgoutUbxMonRxbufUart1(mk_u8(v)),
        232 => CfgVal::MsgoutUbxMonRxbufUart2(mk_u8(v)),
        233 => CfgVal::MsgoutUbxMonRxbufUsb(mk_u8(v)),
        234 => CfgVal::MsgoutUbxMonRxrI2c(mk_u8(v)),
        235 => CfgVal::MsgoutUbxMonRxrSpi(mk_u8(v)),
        236 => CfgVal::MsgoutUbxMonRxrUart1(mk_u8(v)),
        237 => CfgVal::MsgoutUbxMonRxrUart2(mk_u8(v)),
        238 => CfgVal::MsgoutUbxMonRxrUsb(mk_u8(v)),
        239 => CfgVal::MsgoutUbxMonTxbufI2c(mk_u8(v)),
        240 => CfgVal::MsgoutUbxMonTxbufSpi(mk_u8(v)),
        241 => CfgVal::MsgoutUbxMonTxbufUart1(mk_u8(v)),
        242 => CfgVal::MsgoutUbxMonTxbufUart2(mk_u8(v)),
        243 => CfgVal::MsgoutUbxMonTxbufUsb(mk_u8(v)),
        244 => CfgVal::MsgoutUbxNavClockI2c(mk_u8(v)),
        245 => CfgVal::MsgoutUbxNavClockSpi(mk_u8(v)),
        246 => CfgVal::MsgoutUbxNavClockUart1(mk_u8(v)),
        247 => CfgVal::MsgoutUbxNavClockUart2(mk_u8(v)),
        248 => CfgVal::MsgoutUbxNavClockUsb(mk_u8(v)),
        249 => CfgVal::MsgoutUbxNavDopI2c(mk_u8(v)),
        250 => CfgVal::MsgoutUbxNavDopSpi(mk_u8(v)),
        251 => CfgVal::MsgoutUbxNavDopUart1(mk_u8(v)),
        252 => CfgVal::MsgoutUbxNavDopUart2(mk_u8(v)),
        253 => CfgVal::MsgoutUbxNavDopUsb(mk_u8(v)),
        254 => CfgVal::MsgoutUbxNavEoeI2c(mk_u8(v)),
        255 => CfgVal::MsgoutUbxNavEoeSpi(mk_u8(v)),
        256 => CfgVal::MsgoutUbxNavEoeUart1(mk_u8(v)),
        257 => CfgVal::MsgoutUbxNavEoeUart2(mk_u8(v)),
        258 => CfgVal::MsgoutUbxNavEoeUsb(mk_u8(v)),
        259 => CfgVal::MsgoutUbxNavGeofenceI2c(mk_u8(v)),
        260 => CfgVal::MsgoutUbxNavGeofenceSpi(mk_u8(v)),
        261 => CfgVal::MsgoutUbxNavGeofenceUart1(mk_u8(v)),
        262 => CfgVal::MsgoutUbxNavGeofenceUart2(mk_u8(v)),
        263 => CfgVal::MsgoutUbxNavGeofenceUsb(mk_u8(v)),
        264 => CfgVal::MsgoutUbxNavHpPosEcefI2c(mk_u8(v)),
        265 => CfgVal::MsgoutUbxNavHpPosEcefSpi(mk_u8(v)),
        266 => CfgVal::MsgoutUbxNavHpPosEcefUart1(mk_u8(v)),
        267 => CfgVal::MsgoutUbxNavHpPosEcefUart2(mk_u8(v)),
        268 => CfgVal::MsgoutUbxNavHpPosEcefUsb(mk_u8(v)),
        269 => CfgVal::MsgoutUbxNavHpPosllhI2c(mk_u8(v)),
        270 => CfgVal::MsgoutUbxNavHpPosllhSpi(mk_u8(v)),
        271 => CfgVal::MsgoutUbxNavHpPosllhUart1(mk_u8(v)),
        272 => CfgVal::MsgoutUbxNavHpPosllhUart2(mk_u8(v)),
        273 => CfgVal::MsgoutUbxNavHpPosllhUsb(mk_u8(v)),
        274 => CfgVal::MsgoutUbxNavOdoI2c(mk_u8(v)),
        275 => CfgVal::MsgoutUbxNavOdoSpi(mk_u8(v)),
        276 => CfgVal::MsgoutUbxNavOdoUart1(mk_u8(v)),
        277 => CfgVal::MsgoutUbxNavOdoUart2(mk_u8(v)),
        278 => CfgVal::MsgoutUbxNavOdoUsb(mk_u8(v)),
        279 => CfgVal::MsgoutUbxNavOrbI2c(mk_u8(v)),
        280 => CfgVal::MsgoutUbxNavOrbSpi(mk_u8(v)),
        281 => CfgVal::MsgoutUbxNavOrbUart1(mk_u8(v)),
        282 => CfgVal::MsgoutUbxNavOrbUart2(mk_u8(v)),
        283 => CfgVal::MsgoutUbxNavOrbUsb(mk_u8(v)),
        284 => CfgVal::MsgoutUbxNavPosEcefI2c(mk_u8(v)),
        285 => CfgVal::MsgoutUbxNavPosEcefSpi(mk_u8(v)),
        286 => CfgVal::MsgoutUbxNavPosEcefUart1(mk_u8(v)),
        287 => CfgVal::MsgoutUbxNavPosEcefUart2(mk_u8(v)),
        288 => CfgVal::MsgoutUbxNavPosEcefUsb(mk_u8(v)),
        289 => CfgVal::MsgoutUbxNavPosLlhI2c(mk_u8(v)),
        290 => CfgVal::MsgoutUbxNavPosLlhSpi(mk_u8(v)),
        291 => CfgVal::MsgoutUbxNavPosLlhUart1(mk_u8(v)),
        292 => CfgVal::MsgoutUbxNavPosLlhUart2(mk_u8(v)),
        293 => CfgVal::MsgoutUbxNavPosLlhUsb(mk_u8(v)),
        294 => CfgVal::MsgoutUbxNavPvtI2c(mk_u8(v)),
        295 => CfgVal::MsgoutUbxNavPvtSpi(mk_u8(v)),
        296 => CfgVal::MsgoutUbxNavPvtUart1(mk_u8(v)),
        297 => CfgVal::MsgoutUbxNavPvtUart2(mk_u8(v)),
        298 => CfgVal::MsgoutUbxNavPvtUsb(mk_u8(v)),
        299 => CfgVal::MsgoutUbxNavRelposnedI2c(mk_u8(v)),
        300 => CfgVal::MsgoutUbxNavRelposnedSpi(mk_u8(v)),
        301 => CfgVal::MsgoutUbxNavRelposnedUart1(mk_u8(v)),
        302 => CfgVal::MsgoutUbxNavRelposnedUart2(mk_u8(v)),
        303 => CfgVal::MsgoutUbxNavRelposnedUsb(mk_u8(v)),
        304 => CfgVal::MsgoutUbxNavSatI2c(mk_u8(v)),
        305 => CfgVal::MsgoutUbxNavSatSpi(mk_u8(v)),
        306 => CfgVal::MsgoutUbxNavSatUart1(mk_u8(v)),
        307 => CfgVal::MsgoutUbxNavSatUart2(mk_u8(v)),
        308 => CfgVal::MsgoutUbxNavSatUsb(mk_u8(v)),
        309 => CfgVal::MsgoutUbxNavSigI2c(mk_u8(v)),
        310 => CfgVal::MsgoutUbxNavSigSpi(mk_u8(v)),
        311 => CfgVal::MsgoutUbxNavSigUart1(mk_u8(v)),
        312 => CfgVal::MsgoutUbxNavSigUart2(mk_u8(v)),
        313 => CfgVal::MsgoutUbxNavSigUsb(mk_u8(v)),
        314 => CfgVal::MsgoutUbxNavStatusI2c(mk_u8(v)),
        315 => CfgVal::MsgoutUbxNavStatusSpi(mk_u8(v)),
        316 => CfgVal::MsgoutUbxNavStatusUart1(mk_u8(v)),
        317 => CfgVal::MsgoutUbxNavStatusUart2(mk_u8(v)),
        318 => CfgVal::MsgoutUbxNavStatusUsb(mk_u8(v)),
        319 => CfgVal::MsgoutUbxNavSvinI2c(mk_u8(v)),
        320 => CfgVal::MsgoutUbxNavSvinSpi(mk_u8(v)),
        321 => CfgVal::MsgoutUbxNavSvinUart1(mk_u8(v)),
        322 => CfgVal::MsgoutUbxNavSvinUart2(mk_u8(v)),
        323 => CfgVal::MsgoutUbxNavSvinUsb(mk_u8(v)),
        324 => CfgVal::MsgoutUbxNavTimeBdsI2c(mk_u8(v)),
        325 => CfgVal::MsgoutUbxNavTimeBdsSpi(mk_u8(v)),
        326 => CfgVal::MsgoutUbxNavTimeBdsUart1(mk_u8(v)),
        327 => CfgVal::MsgoutUbxNavTimeBdsUart2(mk_u8(v)),
        328 => CfgVal::MsgoutUbxNavTimeBdsUsb(mk_u8(v)),
        329 => CfgVal::MsgoutUbxNavTimeGalI2c(mk_u8(v)),
        330 => CfgVal::MsgoutUbxNavTimeGalSpi(mk_u8(v)),
        331 => CfgVal::MsgoutUbxNavTimeGalUart1(mk_u8(v)),
        332 => CfgVal::MsgoutUbxNavTimeGalUart2(mk_u8(v)),
        333 => CfgVal::MsgoutUbxNavTimeGalUsb(mk_u8(v)),
        334 => CfgVal::MsgoutUbxNavTimeGloI2c(mk_u8(v)),
        335 => CfgVal::MsgoutUbxNavTimeGloSpi(mk_u8(v)),
        336 => CfgVal::MsgoutUbxNavTimeGloUart1(mk_u8(v)),
        337 => CfgVal::MsgoutUbxNavTimeGloUart2(mk_u8(v)),
        338 => CfgVal::MsgoutUbxNavTimeGloUsb(mk_u8(v)),
        339 => CfgVal::MsgoutUbxNavTimeGpsI2c(mk_u8(v)),
        340 => CfgVal::MsgoutUbxNavTimeGpsSpi(mk_u8(v)),
        341 => CfgVal::MsgoutUbxNavTimeGpsUart1(mk_u8(v)),
        342 => CfgVal::MsgoutUbxNavTimeGpsUart2(mk_u8(v)),
        343 => CfgVal::MsgoutUbxNavTimeGpsUsb(mk_u8(v)),
        344 => CfgVal::MsgoutUbxNavTimeLsI2c(mk_u8(v)),
        345 => CfgVal::MsgoutUbxNavTimeLsSpi(mk_u8(v)),
        346 => CfgVal::MsgoutUbxNavTimeLsUart1(mk_u8(v)),
        347 => CfgVal::MsgoutUbxNavTimeLsUart2(mk_u8(v)),
        348 => CfgVal::MsgoutUbxNavTimeLsUsb(mk_u8(v)),
        349 => CfgVal::MsgoutUbxNavTimeUtcI2c(mk_u8(v)),
        350 => CfgVal::MsgoutUbxNavTimeUtcSpi(mk_u8(v)),
        351 => CfgVal::MsgoutUbxNavTimeUtcUart1(mk_u8(v)),
        352 => CfgVal::MsgoutUbxNavTimeUtcUart2(mk_u8(v)),
        353 => CfgVal::MsgoutUbxNavTimeUtcUsb(mk_u8(v)),
        354 => CfgVal::MsgoutUbxNavVelEcefI2c(mk_u8(v)),
        355 => CfgVal::MsgoutUbxNavVelEcefSpi(mk_u8(v)),
        356 => CfgVal::MsgoutUbxNavVelEcefUart1(mk_u8(v)),
        357 => CfgVal::MsgoutUbxNavVelEcefUart2(mk_u8(v)),
        358 => CfgVal::MsgoutUbxNavVelEcefUsb(mk_u8(v)),
        359 => CfgVal::MsgoutUbxNavVelNedI2c(mk_u8(v)),
        360 => CfgVal::MsgoutUbxNavVelNedSpi(mk_u8(v)),
        361 => CfgVal::MsgoutUbxNavVelNedUart1(mk_u8(v)),
        362 => CfgVal::MsgoutUbxNavVelNedUart2(mk_u8(v)),
        363 => CfgVal::MsgoutUbxNavVelNedUsb(mk_u8(v)),
        364 => CfgVal::MsgoutUbxRxmMeasxI2c(mk_u8(v)),
        365 => CfgVal::MsgoutUbxRxmMeasxSpi(mk_u8(v)),
        366 => CfgVal::MsgoutUbxRxmMeasxUart1(mk_u8(v)),
        367 => CfgVal::MsgoutUbxRxmMeasxUart2(mk_u8(v)),
        368 => CfgVal::MsgoutUbxRxmMeasxUsb(mk_u8(v)),
        369 => CfgVal::MsgoutUbxRxmRawxI2c(mk_u8(v)),
        370 => CfgVal::MsgoutUbxRxmRawxSpi(mk_u8(v)),
        371 => CfgVal::MsgoutUbxRxmRawxUart1(mk_u8(v)),
        372 => CfgVal::MsgoutUbxRxmRawxUart2(mk_u8(v)),
        373 => CfgVal::MsgoutUbxRxmRawxUsb(mk_u8(v)),
        374 => CfgVal::MsgoutUbxRxmRlmI2c(mk_u8(v)),
        375 => CfgVal::MsgoutUbxRxmRlmSpi(mk_u8(v)),
        376 => CfgVal::MsgoutUbxRxmRlmUart1(mk_u8(v)),
        377 => CfgVal::MsgoutUbxRxmRlmUart2(mk_u8(v)),
        378 => CfgVal::MsgoutUbxRxmRlmUsb(mk_u8(v)),
        379 => CfgVal::MsgoutUbxRxmRtcmI2c(mk_u8(v)),
        380 => CfgVal::MsgoutUbxRxmRtcmSpi(mk_u8(v)),
        381 => CfgVal::MsgoutUbxRxmRtcmUart1(mk_u8(v)),
        382 => CfgVal::MsgoutUbxRxmRtcmUart2(mk_u8(v)),
        383 => CfgVal::MsgoutUbxRxmRtcmUsb(mk_u8(v)),
        384 => CfgVal::MsgoutUbxRxmSfrbxI2c(mk_u8(v)),
        385 => CfgVal::MsgoutUbxRxmSfrbxSpi(mk_u8(v)),
        386 => CfgVal::MsgoutUbxRxmSfrbxUart1(mk_u8(v)),
        387 => CfgVal::MsgoutUbxRxmSfrbxUart2(mk_u8(v)),
        388 => CfgVal::MsgoutUbxRxmSfrbxUsb(mk_u8(v)),
        389 => CfgVal::MsgoutUbxTimTm2I2c(mk_u8(v)),
        390 => CfgVal::MsgoutUbxTimTm2Spi(mk_u8(v)),
        391 => CfgVal::MsgoutUbxTimTm2Uart1(mk_u8(v)),
        392 => CfgVal::MsgoutUbxTimTm2Uart2(mk_u8(v)),
        393 => CfgVal::MsgoutUbxTimTm2Usb(mk_u8(v)),
        394 => CfgVal::MsgoutUbxTimTpI2c(mk_u8(v)),
        395 => CfgVal::MsgoutUbxTimTpSpi(mk_u8(v)),
        396 => CfgVal::MsgoutUbxTimTpUart1(mk_u8(v)),
        397 => CfgVal::MsgoutUbxTimTpUart2(mk_u8(v)),
        398 => CfgVal::MsgoutUbxTimTpUsb(mk_u8(v)),
        399 => CfgVal::MsgoutUbxTimVrfyI2c(mk_u8(v)),
        400 => CfgVal::MsgoutUbxTimVrfySpi(mk_u8(v)),
        401 => CfgVal::MsgoutUbxTimVrfyUart1(mk_u8(v)),
        402 => CfgVal::MsgoutUbxTimVrfyUart2(mk_u8(v)),
        403 => CfgVal::MsgoutUbxTimVrfyUsb(mk_u8(v)),
        404 => CfgVal::SignalGpsEna(mk_bool(v)),
        405 => CfgVal::SignalGpsL1caEna(mk_bool(v)),
        406 => CfgVal::SignalGpsL2cEna(mk_bool(v)),
        407 => CfgVal::SignalGalEna(mk_bool(v)),
        408 => CfgVal::SignalGalE1Ena(mk_bool(v)),
        409 => CfgVal::SignalGalE5bEna(mk_bool(v)),
        410 => CfgVal::SignalBdsEna(mk_bool(v)),
        411 => CfgVal::SignalBdsB1Ena(mk_bool(v)),
        412 => CfgVal::SignalBdsB2Ena(mk_bool(v)),
        413 => CfgVal::SignalQzssEna(mk_bool(v)),
        414 => CfgVal::SignalQzssL1caEna(mk_bool(v)),
        415 => CfgVal::SignalQzssL2cEna(mk_bool(v)),
        416 => CfgVal::SignalGloEna(mk_bool(v)),
        417 => CfgVal::SignalGloL1Ena(mk_bool(v)),
        418 => CfgVal::SignalGLoL2Ena(mk_bool(v)),
        419 => CfgVal::TpPulseDef(mk_tppulse(v)),
        420 => CfgVal::TpPulseLengthDef(mk_tppulselength(v)),
        421 => CfgVal::TpAntCableDelay(mk_i16(v)),
        422 => CfgVal::TpPeriodTp1(mk_u32(v)),
        423 => CfgVal::TpPeriodLockTp1(mk_u32(v)),
        424 => CfgVal::TpFreqTp1(mk_u32(v)),
        425 => CfgVal::TpFreqLockTp1(mk_u32(v)),
        426 => CfgVal::TpLenTp1(mk_u32(v)),
        427 => CfgVal::TpLenLockTp1(mk_u32(v)),
        428 => CfgVal::TpTp1Ena(mk_bool(v)),
        429 => CfgVal::TpSyncGnssTp1(mk_bool(v)),
        430 => CfgVal::TpUseLockedTp1(mk_bool(v)),
        431 => CfgVal::TpAlignToTowTp1(mk_bool(v)),
        432 => CfgVal::TpPolTp1(mk_bool(v)),
        433 => CfgVal::TpTimegridTp1(mk_alignmenttoreferencetime(v)),
        _ => panic!("harness: key index"),
    }
}

/// (key index, raw value) of a decoded item
pub fn unmake(c: &CfgVal) -> (usize, u64) {
    #[allow(unreachable_patterns)]
    match c {
        CfgVal::Uart1Baudrate(v) => (0, un_u32(*v)),
        CfgVal::Uart1StopBits(v) => (1, un_stopbits(*v)),
        CfgVal::Uart1DataBits(v) => (2, un_databits(*v)),
        CfgVal::Uart1Parity(v) => (3, un_parity(*v)),
        CfgVal::Uart1Enabled(v) => (4, un_bool(*v)),
        CfgVal::Uart1InProtUbx(v) => (5, un_bool(*v)),
        CfgVal::Uart1InProtNmea(v) => (6, un_bool(*v)),
        CfgVal::Uart1InProtRtcm3x(v) => (7, un_bool(*v)),
        CfgVal::Uart1OutProtUbx(v) => (8, un_bool(*v)),
        CfgVal::Uart1OutProtNmea(v) => (9, un_bool(*v)),
        CfgVal::Uart1OutProtRtcm3x(v) => (10, un_bool(*v)),
        CfgVal::Uart2Baudrate(v) => (11, un_u32(*v)),
        CfgVal::Uart2StopBits(v) => (12, un_stopbits(*v)),
        CfgVal::Uart2DataBits(v) => (13, un_databits(*v)),
        CfgVal::Uart2Parity(v) => (14, un_parity(*v)),
        CfgVal::Uart2Enabled(v) => (15, un_bool(*v)),
        CfgVal::Uart2Remap(v) => (16, un_bool(*v)),
        CfgVal::Uart2InProtUbx(v) => (17, un_bool(*v)),
        CfgVal::Uart2InProtNmea(v) => (18, un_bool(*v)),
        CfgVal::Uart2InProtRtcm3x(v) => (19, un_bool(*v)),
        CfgVal::Uart2OutProtUbx(v) => (20, un_bool(*v)),
        CfgVal::Uart2OutProtNmea(v) => (21, un_bool(*v)),
        CfgVal::Uart2OutProtRtcm3x(v) => (22, un_bool(*v)),
        CfgVal::UsbEnabled(v) => (23, un_bool(*v)),
        CfgVal::UsbSelfpow(v) => (24, un_bool(*v)),
        CfgVal::UsbVendorId(v) => (25, un_u16(*v)),
        CfgVal::UsbProductId(v) => (26, un_u16(*v)),
        CfgVal::UsbPower(v) => (27, un_u16(*v)),
        CfgVal::UsbVendorStr0(v) => (28, un_u64(*v)),
        CfgVal::UsbVendorStr1(v) => (29, un_u64(*v)),
        CfgVal::UsbVendorStr2(v) => (30, un_u64(*v)),
        CfgVal::UsbVendorStr3(v) => (31, un_u64(*v)),
        CfgVal::UsbProductStr0(v) => (32, un_u64(*v)),
        CfgVal::UsbProductStr1(v) => (33, un_u64(*v)),
        CfgVal::UsbProductStr2(v) => (34, un_u64(*v)),
        CfgVal::UsbProductStr3(v) => (35, un_u64(*v)),
        CfgVal::UsbSerialNoStr0(v) => (36, un_u64(*v)),
        CfgVal::UsbSerialNoStr1(v) => (37, un_u64(*v)),
        CfgVal::UsbSerialNoStr2(v) => (38, un_u64(*v)),
        CfgVal::UsbSerialNoStr3(v) => (39, un_u64(*v)),
        CfgVal::UsbinprotUbx(v) => (40, un_bool(*v)),
        CfgVal::UsbinprotNmea(v) => (41, un_bool(*v)),
        CfgVal::UsbinprotRtcm3X(v) => (42, un_bool(*v)),
        CfgVal::UsbOutProtUbx(v) => (43, un_bool(*v)),
        CfgVal::UsbOutProtNmea(v) => (44, un_bool(*v)),
        CfgVal::UsbOutProtRtcm3x(v) => (45, un_bool(*v)),
        CfgVal::InfmsgUbxI2c(v) => (46, un_cfginfmask(*v)),
        CfgVal::InfmsgUbxUart1(v) => (47, un_cfginfmask(*v)),
        CfgVal::InfmsgUbxUart2(v) => (48, un_cfginfmask(*v)),
        CfgVal::InfmsgUbxUsb(v) => (49, un_cfginfmask(*v)),
        CfgVal::InfmsgUbxSpi(v) => (50, un_cfginfmask(*v)),
        CfgVal::InfmsgNmeaI2c(v) => (51, un_cfginfmask(*v)),
        CfgVal::InfmsgNmeaUart1(v) => (52, un_cfginfmask(*v)),
        CfgVal::InfmsgNmeaUart2(v) => (53, un_cfginfmask(*v)),
        CfgVal::InfmsgNmeaUsb(v) => (54, un_cfginfmask(*v)),
        CfgVal::InfmsgNmeaSpi(v) => (55, un_cfginfmask(*v)),
        CfgVal::RateMeas(v) => (56, un_u16(*v)),
        CfgVal::RateNav(v) => (57, un_u16(*v)),
        CfgVal::RateTimeref(v) => (58, un_alignmenttoreferencetime(*v)),
        CfgVal::MsgoutNmeaIdDtmI2c(v) => (59, un_u8(*v)),
        CfgVal::MsgoutNmeaIdDtmSpi(v) => (60, un_u8(*v)),
        CfgVal::MsgoutNmeaIdDtmUart1(v) => (61, un_u8(*v)),
        CfgVal::MsgoutNmeaIdDtmUart2(v) => (62, un_u8(*v)),
        CfgVal::MsgoutNmeaIdDtmUsb(v) => (63, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGbsI2c(v) => (64, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGbsSpi(v) => (65, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGbsUart1(v) => (66, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGbsUart2(v) => (67, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGbsUsb(v) => (68, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGgaI2c(v) => (69, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGgaSpi(v) => (70, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGgaUart1(v) => (71, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGgaUart2(v) => (72, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGgaUsb(v) => (73, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGllI2c(v) => (74, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGllSpi(v) => (75, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGllUart1(v) => (76, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGllUart2(v) => (77, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGllUsb(v) => (78, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGnsI2c(v) => (79, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGnsSpi(v) => (80, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGnsUart1(v) => (81, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGnsUart2(v) => (82, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGnsUsb(v) => (83, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGrsI2c(v) => (84, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGrsSpi(v) => (85, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGrsUart1(v) => (86, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGrsUart2(v) => (87, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGrsUsb(v) => (88, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsaI2c(v) => (89, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsaSpi(v) => (90, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsaUart1(v) => (91, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsaUart2(v) => (92, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsaUsb(v) => (93, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGstI2c(v) => (94, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGstSpi(v) => (95, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGstUart1(v) => (96, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGstUart2(v) => (97, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGstUsb(v) => (98, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsvI2c(v) => (99, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsvSpi(v) => (100, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsvUart1(v) => (101, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsvUart2(v) => (102, un_u8(*v)),
        CfgVal::MsgoutNmeaIdGsvUsb(v) => (103, un_u8(*v)),
        CfgVal::MsgoutNmeaIdRmcI2c(v) => (104, un_u8(*v)),
        CfgVal::MsgoutNmeaIdRmcSpi(v) => (105, un_u8(*v)),
        CfgVal::MsgoutNmeaIdRmcUart1(v) => (106, un_u8(*v)),
        CfgVal::MsgoutNmeaIdRmcUart2(v) => (107, un_u8(*v)),
        CfgVal::MsgoutNmeaIdRmcUsb(v) => (108, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVlwI2c(v) => (109, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVlwSpi(v) => (110, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVlwUart1(v) => (111, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVlwUart2(v) => (112, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVlwUsb(v) => (113, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVtgI2c(v) => (114, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVtgSpi(v) => (115, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVtgUart1(v) => (116, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVtgUart2(v) => (117, un_u8(*v)),
        CfgVal::MsgoutNmeaIdVtgUsb(v) => (118, un_u8(*v)),
        CfgVal::MsgoutNmeaIdZdaI2c(v) => (119, un_u8(*v)),
        CfgVal::MsgoutNmeaIdZdaSpi(v) => (120, un_u8(*v)),
        CfgVal::MsgoutNmeaIdZdaUart1(v) => (121, un_u8(*v)),
        CfgVal::MsgoutNmeaIdZdaUart2(v) => (122, un_u8(*v)),
        CfgVal::MsgoutNmeaIdZdaUsb(v) => (123, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolypI2c(v) => (124, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolypSpi(v) => (125, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolypUart1(v) => (126, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolypUart2(v) => (127, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolypUsb(v) => (128, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolysI2c(v) => (129, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolysSpi(v) => (130, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolysUart1(v) => (131, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolysUart2(v) => (132, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolysUsb(v) => (133, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolytI2c(v) => (134, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolytSpi(v) => (135, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolytUart1(v) => (136, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolytUart2(v) => (137, un_u8(*v)),
        CfgVal::MsgoutPubxIdPolytUsb(v) => (138, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1005I2c(v) => (139, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1005Spi(v) => (140, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1005Uart1(v) => (141, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1005Uart2(v) => (142, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1005Usb(v) => (143, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1074I2c(v) => (144, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1074Spi(v) => (145, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1074Uart1(v) => (146, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1074Uart2(v) => (147, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1074Usb(v) => (148, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1077I2c(v) => (149, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1077Spi(v) => (150, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1077Uart1(v) => (151, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1077Uart2(v) => (152, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1077Usb(v) => (153, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1084I2c(v) => (154, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1084Spi(v) => (155, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1084Uart1(v) => (156, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1084Uart2(v) => (157, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1084Usb(v) => (158, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1087I2c(v) => (159, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1087Spi(v) => (160, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1087Uart1(v) => (161, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1087Uart2(v) => (162, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1087Usb(v) => (163, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1094I2c(v) => (164, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1094Spi(v) => (165, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1094Uart1(v) => (166, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1094Uart2(v) => (167, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1094Usb(v) => (168, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1097I2c(v) => (169, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1097Spi(v) => (170, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1097Uart1(v) => (171, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1097Uart2(v) => (172, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1097Usb(v) => (173, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1124I2c(v) => (174, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1124Spi(v) => (175, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1124Uart1(v) => (176, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1124Uart2(v) => (177, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1124Usb(v) => (178, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1127I2c(v) => (179, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1127Spi(v) => (180, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1127Uart1(v) => (181, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1127Uart2(v) => (182, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1127Usb(v) => (183, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1230I2c(v) => (184, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1230Spi(v) => (185, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1230Uart1(v) => (186, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1230Uart2(v) => (187, un_u8(*v)),
        CfgVal::MsgoutRtcm3xType1230Usb(v) => (188, un_u8(*v)),
        CfgVal::MsgoutUbxLogInfoI2c(v) => (189, un_u8(*v)),
        CfgVal::MsgoutUbxLogInfoSpi(v) => (190, un_u8(*v)),
        CfgVal::MsgoutUbxLogInfoUart1(v) => (191, un_u8(*v)),
        CfgVal::MsgoutUbxLogInfoUart2(v) => (192, un_u8(*v)),
        CfgVal::MsgoutUbxLogInfoUsb(v) => (193, un_u8(*v)),
        CfgVal::MsgoutUbxMonCommsI2c(v) => (194, un_u8(*v)),
        CfgVal::MsgoutUbxMonCommsSpi(v) => (195, un_u8(*v)),
        CfgVal::MsgoutUbxMonCommsUart1(v) => (196, un_u8(*v)),
        CfgVal::MsgoutUbxMonCommsUart2(v) => (197, un_u8(*v)),
        CfgVal::MsgoutUbxMonCommsUsb(v) => (198, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw2I2c(v) => (199, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw2Spi(v) => (200, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw2Uart1(v) => (201, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw2Uart2(v) => (202, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw2Usb(v) => (203, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw3I2c(v) => (204, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw3Spi(v) => (205, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw3Uart1(v) => (206, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw3Uart2(v) => (207, un_u8(*v)),
        CfgVal::MsgoutUbxMonHw3Usb(v) => (208, un_u8(*v)),
        CfgVal::MsgoutUbxMonHwI2c(v) => (209, un_u8(*v)),
        CfgVal::MsgoutUbxMonHwSpi(v) => (210, un_u8(*v)),
        CfgVal::MsgoutUbxMonHwUart1(v) => (211, un_u8(*v)),
        CfgVal::MsgoutUbxMonHwUart2(v) => (212, un_u8(*v)),
        CfgVal::MsgoutUbxMonHwUsb(v) => (213, un_u8(*v)),
        CfgVal::MsgoutUbxMonIoI2c(v) => (214, un_u8(*v)),
        CfgVal::MsgoutUbxMonIoSpi(v) => (215, un_u8(*v)),
        CfgVal::MsgoutUbxMonIoUart1(v) => (216, un_u8(*v)),
        CfgVal::MsgoutUbxMonIoUart2(v) => (217, un_u8(*v)),
        CfgVal::MsgoutUbxMonIoUsb(v) => (218, un_u8(*v)),
        CfgVal::MsgoutUbxMonMsgPpI2c(v) => (219, un_u8(*v)),
        CfgVal::MsgoutUbxMonMsgPpSpi(v) => (220, un_u8(*v)),
        CfgVal::MsgoutUbxMonMsgPpUart1(v) => (221, un_u8(*v)),
        CfgVal::MsgoutUbxMonMsgPpUart2(v) => (222, un_u8(*v)),
        CfgVal::MsgoutUbxMonMsgPpUsb(v) => (223, un_u8(*v)),
        CfgVal::MsgoutUbxMonRfI2c(v) => (224, un_u8(*v)),
        CfgVal::MsgoutUbxMonRfSpi(v) => (225, un_u8(*v)),
        CfgVal::MsgoutUbxMonRfUart1(v) => (226, un_u8(*v)),
        CfgVal::MsgoutUbxMonRfUart2(v) => (227, un_u8(*v)),
        CfgVal::MsgoutUbxMonRfUsb(v) => (228, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxbufI2c(v) => (229, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxbufSpi(v) => (230, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxbufUart1(v) => (231, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxbufUart2(v) => (232, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxbufUsb(v) => (233, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxrI2c(v) => (234, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxrSpi(v) => (235, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxrUart1(v) => (236, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxrUart2(v) => (237, un_u8(*v)),
        CfgVal::MsgoutUbxMonRxrUsb(v) => (238, un_u8(*v)),
        CfgVal::MsgoutUbxMonTxbufI2c(v) => (239, un_u8(*v)),
        CfgVal::MsgoutUbxMonTxbufSpi(v) => (240, un_u8(*v)),
        CfgVal::MsgoutUbxMonTxbufUart1(v) => (241, un_u8(*v)),
        CfgVal::MsgoutUbxMonTxbufUart2(v) => (242, un_u8(*v)),
        CfgVal::MsgoutUbxMonTxbufUsb(v) => (243, un_u8(*v)),
        CfgVal::MsgoutUbxNavClockI2c(v) => (244, un_u8(*v)),
        CfgVal::MsgoutUbxNavClockSpi(v) => (245, un_u8(*v)),
        CfgVal::MsgoutUbxNavClockUart1(v) => (246, un_u8(*v)),
        CfgVal::MsgoutUbxNavClockUart2(v) => (247, un_u8(*v)),
        CfgVal::MsgoutUbxNavClockUsb(v) => (248, un_u8(*v)),
        CfgVal::MsgoutUbxNavDopI2c(v) => (249, un_u8(*v)),
        CfgVal::MsgoutUbxNavDopSpi(v) => (250, un_u8(*v)),
        CfgVal::MsgoutUbxNavDopUart1(v) => (251, un_u8(*v)),
        CfgVal::MsgoutUbxNavDopUart2(v) => (252, un_u8(*v)),
        CfgVal::MsgoutUbxNavDopUsb(v) => (253, un_u8(*v)),
        CfgVal::MsgoutUbxNavEoeI2c(v) => (254, un_u8(*v)),
        CfgVal::MsgoutUbxNavEoeSpi(v) => (255, un_u8(*v)),
        CfgVal::MsgoutUbxNavEoeUart1(v) => (256, un_u8(*v)),
        CfgVal::MsgoutUbxNavEoeUart2(v) => (257, un_u8(*v)),
        CfgVal::MsgoutUbxNavEoeUsb(v) => (258, un_u8(*v)),
        CfgVal::MsgoutUbxNavGeofenceI2c(v) => (259, un_u8(*v)),
        CfgVal::MsgoutUbxNavGeofenceSpi(v) => (260, un_u8(*v)),
        CfgVal::MsgoutUbxNavGeofenceUart1(v) => (261, un_u8(*v)),
        CfgVal::MsgoutUbxNavGeofenceUart2(v) => (262, un_u8(*v)),
        CfgVal::MsgoutUbxNavGeofenceUsb(v) => (263, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosEcefI2c(v) => (264, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosEcefSpi(v) => (265, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosEcefUart1(v) => (266, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosEcefUart2(v) => (267, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosEcefUsb(v) => (268, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosllhI2c(v) => (269, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosllhSpi(v) => (270, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosllhUart1(v) => (271, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosllhUart2(v) => (272, un_u8(*v)),
        CfgVal::MsgoutUbxNavHpPosllhUsb(v) => (273, un_u8(*v)),
        CfgVal::MsgoutUbxNavOdoI2c(v) => (274, un_u8(*v)),
        CfgVal::MsgoutUbxNavOdoSpi(v) => (275, un_u8(*v)),
        CfgVal::MsgoutUbxNavOdoUart1(v) => (276, un_u8(*v)),
        CfgVal::MsgoutUbxNavOdoUart2(v) => (277, un_u8(*v)),
        CfgVal::MsgoutUbxNavOdoUsb(v) => (278, un_u8(*v)),
        CfgVal::MsgoutUbxNavOrbI2c(v) => (279, un_u8(*v)),
        CfgVal::MsgoutUbxNavOrbSpi(v) => (280, un_u8(*v)),
        CfgVal::MsgoutUbxNavOrbUart1(v) => (281, un_u8(*v)),
        CfgVal::MsgoutUbxNavOrbUart2(v) => (282, un_u8(*v)),
        CfgVal::MsgoutUbxNavOrbUsb(v) => (283, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosEcefI2c(v) => (284, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosEcefSpi(v) => (285, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosEcefUart1(v) => (286, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosEcefUart2(v) => (287, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosEcefUsb(v) => (288, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosLlhI2c(v) => (289, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosLlhSpi(v) => (290, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosLlhUart1(v) => (291, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosLlhUart2(v) => (292, un_u8(*v)),
        CfgVal::MsgoutUbxNavPosLlhUsb(v) => (293, un_u8(*v)),
        CfgVal::MsgoutUbxNavPvtI2c(v) => (294, un_u8(*v)),
        CfgVal::MsgoutUbxNavPvtSpi(v) => (295, un_u8(*v)),
        CfgVal::MsgoutUbxNavPvtUart1(v) => (296, un_u8(*v)),
        CfgVal::MsgoutUbxNavPvtUart2(v) => (297, un_u8(*v)),
        CfgVal::MsgoutUbxNavPvtUsb(v) => (298, un_u8(*v)),
        CfgVal::MsgoutUbxNavRelposnedI2c(v) => (299, un_u8(*v)),
        CfgVal::MsgoutUbxNavRelposnedSpi(v) => (300, un_u8(*v)),
        CfgVal::MsgoutUbxNavRelposnedUart1(v) => (301, un_u8(*v)),
        CfgVal::MsgoutUbxNavRelposnedUart2(v) => (302, un_u8(*v)),
        CfgVal::MsgoutUbxNavRelposnedUsb(v) => (303, un_u8(*v)),
        CfgVal::MsgoutUbxNavSatI2c(v) => (304, un_u8(*v)),
        CfgVal::MsgoutUbxNavSatSpi(v) => (305, un_u8(*v)),
        CfgVal::MsgoutUbxNavSatUart1(v) => (306, un_u8(*v)),
        CfgVal::MsgoutUbxNavSatUart2(v) => (307, un_u8(*v)),
        CfgVal::MsgoutUbxNavSatUsb(v) => (308, un_u8(*v)),
        CfgVal::MsgoutUbxNavSigI2c(v) => (309, un_u8(*v)),
        CfgVal::MsgoutUbxNavSigSpi(v) => (310, un_u8(*v)),
        CfgVal::MsgoutUbxNavSigUart1(v) => (311, un_u8(*v)),
        CfgVal::MsgoutUbxNavSigUart2(v) => (312, un_u8(*v)),
        CfgVal::MsgoutUbxNavSigUsb(v) => (313, un_u8(*v)),
        CfgVal::MsgoutUbxNavStatusI2c(v) => (314, un_u8(*v)),
        CfgVal::MsgoutUbxNavStatusSpi(v) => (315, un_u8(*v)),
        CfgVal::MsgoutUbxNavStatusUart1(v) => (316, un_u8(*v)),
        CfgVal::MsgoutUbxNavStatusUart2(v) => (317, un_u8(*v)),
        CfgVal::MsgoutUbxNavStatusUsb(v) => (318, un_u8(*v)),
        CfgVal::MsgoutUbxNavSvinI2c(v) => (319, un_u8(*v)),
        CfgVal::MsgoutUbxNavSvinSpi(v) => (320, un_u8(*v)),
        CfgVal::MsgoutUbxNavSvinUart1(v) => (321, un_u8(*v)),
        CfgVal::MsgoutUbxNavSvinUart2(v) => (322, un_u8(*v)),
        CfgVal::MsgoutUbxNavSvinUsb(v) => (323, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeBdsI2c(v) => (324, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeBdsSpi(v) => (325, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeBdsUart1(v) => (326, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeBdsUart2(v) => (327, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeBdsUsb(v) => (328, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGalI2c(v) => (329, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGalSpi(v) => (330, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGalUart1(v) => (331, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGalUart2(v) => (332, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGalUsb(v) => (333, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGloI2c(v) => (334, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGloSpi(v) => (335, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGloUart1(v) => (336, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGloUart2(v) => (337, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGloUsb(v) => (338, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGpsI2c(v) => (339, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGpsSpi(v) => (340, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGpsUart1(v) => (341, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGpsUart2(v) => (342, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeGpsUsb(v) => (343, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeLsI2c(v) => (344, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeLsSpi(v) => (345, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeLsUart1(v) => (346, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeLsUart2(v) => (347, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeLsUsb(v) => (348, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeUtcI2c(v) => (349, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeUtcSpi(v) => (350, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeUtcUart1(v) => (351, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeUtcUart2(v) => (352, un_u8(*v)),
        CfgVal::MsgoutUbxNavTimeUtcUsb(v) => (353, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelEcefI2c(v) => (354, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelEcefSpi(v) => (355, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelEcefUart1(v) => (356, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelEcefUart2(v) => (357, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelEcefUsb(v) => (358, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelNedI2c(v) => (359, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelNedSpi(v) => (360, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelNedUart1(v) => (361, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelNedUart2(v) => (362, un_u8(*v)),
        CfgVal::MsgoutUbxNavVelNedUsb(v) => (363, un_u8(*v)),
        CfgVal::MsgoutUbxRxmMeasxI2c(v) => (364, un_u8(*v)),
        CfgVal::MsgoutUbxRxmMeasxSpi(v) => (365, un_u8(*v)),
        CfgVal::MsgoutUbxRxmMeasxUart1(v) => (366, un_u8(*v)),
        CfgVal::MsgoutUbxRxmMeasxUart2(v) => (367, un_u8(*v)),
        CfgVal::MsgoutUbxRxmMeasxUsb(v) => (368, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRawxI2c(v) => (369, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRawxSpi(v) => (370, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRawxUart1(v) => (371, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRawxUart2(v) => (372, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRawxUsb(v) => (373, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRlmI2c(v) => (374, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRlmSpi(v) => (375, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRlmUart1(v) => (376, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRlmUart2(v) => (377, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRlmUsb(v) => (378, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRtcmI2c(v) => (379, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRtcmSpi(v) => (380, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRtcmUart1(v) => (381, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRtcmUart2(v) => (382, un_u8(*v)),
        CfgVal::MsgoutUbxRxmRtcmUsb(v) => (383, un_u8(*v)),
        CfgVal::MsgoutUbxRxmSfrbxI2c(v) => (384, un_u8(*v)),
        CfgVal::MsgoutUbxRxmSfrbxSpi(v) => (385, un_u8(*v)),
        CfgVal::MsgoutUbxRxmSfrbxUart1(v) => (386, un_u8(*v)),
        CfgVal::MsgoutUbxRxmSfrbxUart2(v) => (387, un_u8(*v)),
        CfgVal::MsgoutUbxRxmSfrbxUsb(v) => (388, un_u8(*v)),
        CfgVal::MsgoutUbxTimTm2I2c(v) => (389, un_u8(*v)),
        CfgVal::MsgoutUbxTimTm2Spi(v) => (390, un_u8(*v)),
        CfgVal::MsgoutUbxTimTm2Uart1(v) => (391, un_u8(*v)),
        CfgVal::MsgoutUbxTimTm2Uart2(v) => (392, un_u8(*v)),
        CfgVal::MsgoutUbxTimTm2Usb(v) => (393, un_u8(*v)),
        CfgVal::MsgoutUbxTimTpI2c(v) => (394, un_u8(*v)),
        CfgVal::MsgoutUbxTimTpSpi(v) => (395, un_u8(*v)),
        CfgVal::MsgoutUbxTimTpUart1(v) => (396, un_u8(*v)),
        CfgVal::MsgoutUbxTimTpUart2(v) => (397, un_u8(*v)),
        CfgVal::MsgoutUbxTimTpUsb(v) => (398, un_u8(*v)),
        CfgVal::MsgoutUbxTimVrfyI2c(v) => (399, un_u8(*v)),
        CfgVal::MsgoutUbxTimVrfySpi(v) => (400, un_u8(*v)),
        CfgVal::MsgoutUbxTimVrfyUart1(v) => (401, un_u8(*v)),
        CfgVal::MsgoutUbxTimVrfyUart2(v) => (402, un_u8(*v)),
        CfgVal::MsgoutUbxTimVrfyUsb(v) => (403, un_u8(*v)),
        CfgVal::SignalGpsEna(v) => (404, un_bool(*v)),
        CfgVal::SignalGpsL1caEna(v) => (405, un_bool(*v)),
        CfgVal::SignalGpsL2cEna(v) => (406, un_bool(*v)),
        CfgVal::SignalGalEna(v) => (407, un_bool(*v)),
        CfgVal::SignalGalE1Ena(v) => (408, un_bool(*v)),
        CfgVal::SignalGalE5bEna(v) => (409, un_bool(*v)),
        CfgVal::SignalBdsEna(v) => (410, un_bool(*v)),
        CfgVal::SignalBdsB1Ena(v) => (411, un_bool(*v)),
        CfgVal::SignalBdsB2Ena(v) => (412, un_bool(*v)),
        CfgVal::SignalQzssEna(v) => (413, un_bool(*v)),
        CfgVal::SignalQzssL1caEna(v) => (414, un_bool(*v)),
        CfgVal::SignalQzssL2cEna(v) => (415, un_bool(*v)),
        CfgVal::SignalGloEna(v) => (416, un_bool(*v)),
        CfgVal::SignalGloL1Ena(v) => (417, un_bool(*v)),
        CfgVal::SignalGLoL2Ena(v) => (418, un_bool(*v)),
        CfgVal::TpPulseDef(v) => (419, un_tppulse(*v)),
        CfgVal::TpPulseLengthDef(v) => (420, un_tppulselength(*v)),
        CfgVal::TpAntCableDelay(v) => (421, un_i16(*v)),
        CfgVal::TpPeriodTp1(v) => (422, un_u32(*v)),
        CfgVal::TpPeriodLockTp1(v) => (423, un_u32(*v)),
        CfgVal::TpFreqTp1(v) => (424, un_u32(*v)),
        CfgVal::TpFreqLockTp1(v) => (425, un_u32(*v)),
        CfgVal::TpLenTp1(v) => (426, un_u32(*v)),
        CfgVal::TpLenLockTp1(v) => (427, un_u32(*v)),
        CfgVal::TpTp1Ena(v) => (428, un_bool(*v)),
        CfgVal::TpSyncGnssTp1(v) => (429, un_bool(*v)),
        CfgVal::TpUseLockedTp1(v) => (430, un_bool(*v)),
        CfgVal::TpAlignToTowTp1(v) => (431, un_bool(*v)),
        CfgVal::TpPolTp1(v) => (432, un_bool(*v)),
        CfgVal::TpTimegridTp1(v) => (433, un_alignmenttoreferencetime(*v)),
        _ => (usize::MAX, 0),
    }
}
