//! Recorded frames (the bytes of libmbus_test_data, see the NOTICE there), without the ones that are the same.
pub static FRAMES: &[&[u8]] = &[
    &[0x68, 0x3C, 0x3C, 0x68, 0x08, 0x08, 0x72, 0x78, 0x03, 0x49, 0x11, 0x77, 0x04, 0x0E, 0x16, 0x0A, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x78, 0x03, 0x49, 0x11, 0x04, 0x13, 0x31, 0xD4, 0x00, 0x00, 0x42, 0x6C, 0x00, 0x00, 0x44, 0x13, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x0B, 0x0B, 0xCD, 0x13, 0x02, 0x27, 0x00, 0x00, 0x09, 0xFD, 0x0E, 0x02, 0x09, 0xFD, 0x0F, 0x06, 0x0F, 0x00, 0x01, 0x75, 0x13, 0xD3, 0x16], // 0 ACW_Itron-BM-plus-m.hex
    &[0x68, 0x56, 0x56, 0x68, 0x08, 0x01, 0x72, 0x23, 0x15, 0x01, 0x09, 0x77, 0x04, 0x14, 0x07, 0x25, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x23, 0x15, 0x01, 0x09, 0x0D, 0x7C, 0x08, 0x44, 0x49, 0x20, 0x2E, 0x74, 0x73, 0x75, 0x63, 0x0A, 0x35, 0x35, 0x37, 0x36, 0x37, 0x30, 0x41, 0x4C, 0x39, 0x30, 0x04, 0x6D, 0x1A, 0x0E, 0xCD, 0x13, 0x02, 0x7C, 0x09, 0x65, 0x6D, 0x69, 0x74, 0x20, 0x2E, 0x74, 0x61, 0x62, 0xD4, 0x09, 0x04, 0x13, 0x1F, 0x00, 0x00, 0x00, 0x04, 0x93, 0x7F, 0x00, 0x00, 0x00, 0x00, 0x44, 0x13, 0x1F, 0x00, 0x00, 0x00, 0x0F, 0x00, 0x01, 0x1F, 0xA9, 0x16], // 1 ACW_Itron-CYBLE-M-Bus-14.hex
    &[0x68, 0xAE, 0xAE, 0x68, 0x28, 0x01, 0x72, 0x95, 0x08, 0x12, 0x11, 0x83, 0x14, 0x02, 0x04, 0x17, 0x00, 0x00, 0x00, 0x84, 0x00, 0x86, 0x3B, 0x23, 0x00, 0x00, 0x00, 0x84, 0x00, 0x86, 0x3C, 0xD1, 0x01, 0x00, 0x00, 0x84, 0x40, 0x86, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x84, 0x40, 0x86, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x85, 0x00, 0x5B, 0x2B, 0x4B, 0xAC, 0x41, 0x85, 0x00, 0x5F, 0x20, 0xD7, 0xAC, 0x41, 0x85, 0x40, 0x5B, 0x00, 0x00, 0xB8, 0x42, 0x85, 0x40, 0x5F, 0x00, 0x00, 0xB8, 0x42, 0x85, 0x00, 0x3B, 0x84, 0x00, 0x35, 0x3F, 0x85, 0x40, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x95, 0x00, 0x3B, 0x95, 0xCF, 0xB2, 0x43, 0x95, 0x40, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x85, 0x00, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x85, 0x40, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x95, 0x00, 0x2B, 0xD3, 0x9F, 0x90, 0x46, 0x95, 0x40, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x19, 0x0F, 0x8A, 0x17, 0x84, 0x00, 0x7C, 0x01, 0x43, 0xF3, 0x0D, 0x00, 0x00, 0x84, 0x40, 0x7C, 0x01, 0x43, 0x9D, 0x01, 0x00, 0x00, 0x84, 0x00, 0x7C, 0x01, 0x63, 0x01, 0x00, 0x00, 0x00, 0x84, 0x40, 0x7C, 0x01, 0x63, 0x01, 0x00, 0x00, 0x00, 0x0F, 0x2F, 0x16], // 2 EDC.hex
    &[0x68, 0xA1, 0xA1, 0x68, 0x08, 0x00, 0x72, 0x45, 0x33, 0x08, 0x24, 0xC5, 0x14, 0x00, 0x04, 0x66, 0x27, 0x00, 0x00, 0x04, 0x78, 0x91, 0x7B, 0x6F, 0x01, 0x04, 0x6D, 0x17, 0x2E, 0xCC, 0x13, 0x04, 0x15, 0x00, 0x00, 0x00, 0x00, 0x44, 0x15, 0x00, 0x00, 0x00, 0x00, 0x84, 0x01, 0x15, 0x00, 0x00, 0x00, 0x00, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0x44, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x11, 0x06, 0x00, 0x00, 0x00, 0x00, 0x42, 0x6C, 0xBF, 0x1C, 0x02, 0x6C, 0xDF, 0x1C, 0x84, 0x20, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x30, 0x06, 0x00, 0x00, 0x00, 0x00, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x14, 0x3B, 0x19, 0x00, 0x00, 0x00, 0x04, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x14, 0x2B, 0x0B, 0x00, 0x00, 0x00, 0x02, 0x5B, 0x16, 0x00, 0x02, 0x5F, 0x15, 0x00, 0x04, 0x61, 0x09, 0x00, 0x00, 0x00, 0x02, 0x23, 0x0C, 0x02, 0x01, 0xFD, 0x17, 0x00, 0x04, 0x90, 0x28, 0x0B, 0x00, 0x00, 0x00, 0xEB, 0x16], // 3 EFE_Engelmann-Elster-SensoStar-2.hex
    &[0x68, 0x51, 0x51, 0x68, 0x08, 0x0B, 0x72, 0x54, 0x02, 0x99, 0x04, 0xC5, 0x14, 0x00, 0x06, 0x0C, 0x27, 0x00, 0x00, 0x04, 0x78, 0x2E, 0x25, 0x4C, 0x00, 0x04, 0x6D, 0x0A, 0x0C, 0xCD, 0x13, 0x04, 0x13, 0x4C, 0x01, 0x00, 0x00, 0x44, 0x13, 0x4B, 0x01, 0x00, 0x00, 0x84, 0x01, 0x13, 0x4C, 0x01, 0x00, 0x00, 0x42, 0x6C, 0xBF, 0x1C, 0x02, 0x6C, 0xDF, 0x1C, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x14, 0x3B, 0x16, 0x08, 0x00, 0x00, 0x02, 0x23, 0xA7, 0x04, 0x01, 0xFD, 0x17, 0x00, 0x04, 0x90, 0x28, 0x08, 0x00, 0x00, 0x00, 0x3F, 0x16], // 4 EFE_Engelmann-WaterStar.hex
    &[0x68, 0x68, 0x68, 0x68, 0x08, 0x00, 0x72, 0x51, 0x39, 0x49, 0x44, 0x93, 0x15, 0x2F, 0x04, 0xA1, 0x70, 0x00, 0x00, 0x0C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x20, 0x13, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x00, 0x00, 0x00, 0x00, 0x3C, 0x2B, 0xBD, 0xEB, 0xDD, 0xDD, 0x3B, 0x3B, 0xBD, 0xEB, 0xDD, 0x0A, 0x5A, 0x27, 0x02, 0x0A, 0x5E, 0x26, 0x02, 0x0A, 0x62, 0x01, 0x00, 0x0A, 0x27, 0x30, 0x07, 0x04, 0x6D, 0x09, 0x0D, 0xCD, 0x13, 0x4C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x4C, 0x13, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x20, 0x13, 0x00, 0x00, 0x00, 0x00, 0x42, 0x6C, 0xBF, 0x15, 0x40, 0x16], // 5 ELS_Elster-F96-Plus.hex
    &[0x68, 0x53, 0x53, 0x68, 0x08, 0x0B, 0x72, 0x61, 0x15, 0x01, 0x24, 0x96, 0x15, 0x16, 0x00, 0x3F, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x1B, 0x02, 0x02, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0x22, 0x15, 0x22, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0x24, 0x0D, 0x12, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xC3, 0x1C, 0x02, 0x65, 0x2E, 0x08, 0x22, 0x65, 0x5C, 0x05, 0x12, 0x65, 0xA2, 0x0B, 0x01, 0x72, 0x18, 0x42, 0x65, 0x2C, 0x08, 0x82, 0x01, 0x65, 0x1F, 0x08, 0x0C, 0x78, 0x61, 0x15, 0x01, 0x24, 0x03, 0xFD, 0x0F, 0x00, 0x00, 0x04, 0x1F, 0xBD, 0x16], // 6 ELV-Elvaco-CMa10.hex
    &[0x68, 0xF4, 0xF4, 0x68, 0x08, 0x00, 0x72, 0x29, 0x26, 0x03, 0x00, 0xB5, 0x15, 0x10, 0x02, 0x02, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x29, 0x26, 0x03, 0x00, 0x84, 0x10, 0x03, 0x54, 0x05, 0x00, 0x00, 0x84, 0x20, 0x03, 0x00, 0x00, 0x00, 0x00, 0x84, 0x90, 0x40, 0x03, 0xAE, 0x1E, 0x00, 0x00, 0x84, 0xA0, 0x40, 0x03, 0x00, 0x00, 0x00, 0x00, 0x04, 0xAB, 0xFF, 0x01, 0xFE, 0xFF, 0xFF, 0xFF, 0x04, 0xAB, 0xFF, 0x02, 0x00, 0x00, 0x00, 0x00, 0x04, 0xAB, 0xFF, 0x03, 0x00, 0x00, 0x00, 0x00, 0x04, 0x2B, 0xFE, 0xFF, 0xFF, 0xFF, 0x84, 0x80, 0x40, 0xAB, 0xFF, 0x01, 0x0E, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0xAB, 0xFF, 0x02, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0xAB, 0xFF, 0x03, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x2B, 0x0E, 0x00, 0x00, 0x00, 0x02, 0xFD, 0xC8, 0xFF, 0x01, 0xD1, 0x08, 0x02, 0xFD, 0xC8, 0xFF, 0x02, 0x00, 0x00, 0x02, 0xFD, 0xC8, 0xFF, 0x03, 0x00, 0x00, 0x22, 0xFD, 0xC8, 0xFF, 0x01, 0x52, 0x07, 0x22, 0xFD, 0xC8, 0xFF, 0x02, 0x00, 0x00, 0x22, 0xFD, 0xC8, 0xFF, 0x03, 0x00, 0x00, 0x12, 0xFD, 0xC8, 0xFF, 0x01, 0x6A, 0x09, 0x12, 0xFD, 0xC8, 0xFF, 0x02, 0x00, 0x00, 0x12, 0xFD, 0xC8, 0xFF, 0x03, 0x00, 0x00, 0x03, 0xFD, 0xD9, 0xFF, 0x01, 0xBE, 0xFF, 0xFF, 0x03, 0xFD, 0xD9, 0xFF, 0x02, 0x00, 0x00, 0x00, 0x03, 0xFD, 0xD9, 0xFF, 0x03, 0x00, 0x00, 0x00, 0x03, 0xFD, 0x59, 0xBE, 0xFF, 0xFF, 0x01, 0xFF, 0xE1, 0xFF, 0x01, 0x0D, 0x01, 0xFF, 0xE1, 0xFF, 0x02, 0x00, 0x01, 0xFF, 0xE1, 0xFF, 0x03, 0x00, 0x02, 0xFF, 0x52, 0xF4, 0x01, 0x02, 0xFD, 0x60, 0x38, 0x00, 0x01, 0xFD, 0x17, 0x00, 0x74, 0x16], // 7 EMU_EMU-Professional-375-M-Bus.hex
    &[0x68, 0x90, 0x90, 0x68, 0x08, 0x01, 0x72, 0x57, 0x26, 0x80, 0x00, 0xCD, 0x4E, 0x08, 0x04, 0x46, 0x00, 0x00, 0x00, 0x04, 0x06, 0x98, 0x14, 0x00, 0x00, 0x04, 0x14, 0x6B, 0xD6, 0x01, 0x00, 0x84, 0x40, 0x14, 0x79, 0x66, 0x01, 0x00, 0x02, 0x5B, 0x1C, 0x00, 0x02, 0x5F, 0x22, 0x00, 0x02, 0x62, 0x00, 0x00, 0x04, 0x22, 0xB1, 0xA1, 0x00, 0x00, 0x04, 0x26, 0xB1, 0xA1, 0x00, 0x00, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x04, 0x2C, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x0C, 0x0C, 0xBD, 0x16, 0x84, 0x40, 0x6E, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x6E, 0x00, 0x00, 0x00, 0x00, 0x1F, 0xC4, 0x09, 0x01, 0x01, 0x12, 0x00, 0x01, 0x01, 0x01, 0x07, 0x57, 0x26, 0x80, 0x00, 0xCD, 0x4E, 0x08, 0x04, 0x07, 0xA3, 0xFF, 0x03, 0x57, 0x26, 0x80, 0x00, 0x04, 0x04, 0x0D, 0x02, 0xFF, 0x0F, 0x05, 0x3C, 0xFF, 0x62, 0xE7, 0x62, 0x96, 0x0A, 0x89, 0x0A, 0x02, 0x00, 0x15, 0x40, 0x17, 0x01, 0x00, 0x00, 0x63, 0x42, 0xDE, 0x16], // 8 Elster-F2.hex
    &[0x68, 0x38, 0x38, 0x68, 0x08, 0x19, 0x72, 0x07, 0x62, 0x00, 0x23, 0x2E, 0x19, 0x23, 0x02, 0x92, 0x00, 0x00, 0x00, 0x8C, 0x10, 0x04, 0x68, 0x28, 0x17, 0x00, 0x8C, 0x11, 0x04, 0x68, 0x28, 0x17, 0x00, 0x02, 0xFD, 0xC9, 0xFF, 0x01, 0xE6, 0x00, 0x02, 0xFD, 0xDB, 0xFF, 0x01, 0x06, 0x00, 0x02, 0xAC, 0xFF, 0x01, 0x09, 0x00, 0x82, 0x40, 0xAC, 0xFF, 0x01, 0xFD, 0xFF, 0x5B, 0x16], // 9 FIN-Finder-7E.23.8.230.0020.hex
    &[0x68, 0x1B, 0x1B, 0x68, 0x08, 0x01, 0x72, 0x07, 0x20, 0x18, 0x00, 0xE6, 0x1E, 0x35, 0x07, 0x4C, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x07, 0x20, 0x18, 0x00, 0x0C, 0x16, 0x69, 0x02, 0x00, 0x00, 0x96, 0x16], // 10 GWF-MTKcoder.hex
    &[0x68, 0x40, 0x40, 0x68, 0x08, 0x01, 0x72, 0x58, 0x20, 0x08, 0x12, 0xE2, 0x30, 0x40, 0x03, 0x40, 0x00, 0x00, 0x00, 0x2F, 0x2F, 0x4C, 0x13, 0x92, 0x40, 0x83, 0x10, 0x46, 0x6D, 0x00, 0x00, 0x08, 0x16, 0x27, 0x00, 0x0D, 0x78, 0x11, 0x34, 0x31, 0x38, 0x35, 0x30, 0x32, 0x38, 0x30, 0x32, 0x31, 0x39, 0x35, 0x37, 0x31, 0x30, 0x30, 0x47, 0x89, 0x40, 0xFD, 0x1A, 0x01, 0x01, 0xFD, 0x17, 0x00, 0x01, 0xFD, 0x67, 0x0F, 0x38, 0x16], // 11 LGB_G350.hex
    &[0x68, 0x2F, 0x2F, 0x68, 0x08, 0x16, 0x72, 0x01, 0x63, 0x21, 0x11, 0xAC, 0x48, 0x41, 0x03, 0xB1, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x81, 0x60, 0x87, 0x02, 0x04, 0x6D, 0xA1, 0x15, 0xE9, 0x17, 0x42, 0x6C, 0xDF, 0x1C, 0x4C, 0x14, 0x82, 0x73, 0x59, 0x02, 0x42, 0xEC, 0x7E, 0xFF, 0x1C, 0x0F, 0xC0, 0x01, 0x01, 0x0C, 0xBD, 0x16], // 12 REL-Relay-Padpuls2.hex
    &[0x68, 0x92, 0x92, 0x68, 0x08, 0x28, 0x72, 0x55, 0x00, 0x00, 0x19, 0x43, 0x4C, 0x16, 0x02, 0xBF, 0x00, 0x00, 0x00, 0x8C, 0x10, 0x04, 0x93, 0x02, 0x00, 0x00, 0x8C, 0x11, 0x04, 0x93, 0x02, 0x00, 0x00, 0x8C, 0x20, 0x04, 0x06, 0x00, 0x00, 0x00, 0x8C, 0x21, 0x04, 0x06, 0x00, 0x00, 0x00, 0x02, 0xFD, 0xC9, 0xFF, 0x01, 0xDF, 0x00, 0x02, 0xFD, 0xDB, 0xFF, 0x01, 0x00, 0x00, 0x02, 0xAC, 0xFF, 0x01, 0x00, 0x00, 0x82, 0x40, 0xAC, 0xFF, 0x01, 0x00, 0x00, 0x02, 0xFD, 0xC9, 0xFF, 0x02, 0x00, 0x00, 0x02, 0xFD, 0xDB, 0xFF, 0x02, 0x00, 0x00, 0x02, 0xAC, 0xFF, 0x02, 0x00, 0x00, 0x82, 0x40, 0xAC, 0xFF, 0x02, 0x00, 0x00, 0x02, 0xFD, 0xC9, 0xFF, 0x03, 0x00, 0x00, 0x02, 0xFD, 0xDB, 0xFF, 0x03, 0x00, 0x00, 0x02, 0xAC, 0xFF, 0x03, 0x00, 0x00, 0x82, 0x40, 0xAC, 0xFF, 0x03, 0x00, 0x00, 0x02, 0xFF, 0x68, 0x00, 0x00, 0x02, 0xAC, 0xFF, 0x00, 0x00, 0x00, 0x82, 0x40, 0xAC, 0xFF, 0x00, 0x00, 0x00, 0x01, 0xFF, 0x14, 0x00, 0x0A, 0x16], // 13 SBC_Saia-Burgess-ALE3.hex
    &[0x68, 0x71, 0x71, 0x68, 0x08, 0x04, 0x72, 0x88, 0x17, 0x01, 0x00, 0xAE, 0x4C, 0x06, 0x0D, 0x3E, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x3B, 0x0E, 0xE7, 0x14, 0x34, 0x6D, 0x00, 0x00, 0x01, 0x01, 0x34, 0xFD, 0x17, 0x00, 0x00, 0x00, 0x04, 0x04, 0x20, 0x92, 0x22, 0xF1, 0x00, 0x04, 0x24, 0xA4, 0x1A, 0xE7, 0x00, 0x04, 0x86, 0x3B, 0x97, 0x9B, 0x00, 0x00, 0x04, 0x13, 0xBE, 0x09, 0x5E, 0x00, 0x05, 0x2E, 0xB1, 0xD1, 0x2E, 0xBE, 0x05, 0x3E, 0xF5, 0xB8, 0x4E, 0x40, 0x05, 0x5B, 0xB8, 0x2D, 0xF9, 0x41, 0x05, 0x5F, 0x78, 0x8B, 0xF9, 0x41, 0x05, 0x63, 0x00, 0x80, 0x3B, 0xBD, 0x04, 0xBE, 0x50, 0x71, 0xBB, 0xB0, 0x00, 0x04, 0xBE, 0x58, 0xF4, 0x02, 0x00, 0x00, 0x0C, 0x78, 0x88, 0x17, 0x01, 0x00, 0x02, 0x7F, 0x10, 0xB5, 0x5D, 0x16], // 14 SEN_Pollustat.hex
    &[0x68, 0x42, 0x42, 0x68, 0x08, 0x00, 0x72, 0x95, 0x50, 0x26, 0x21, 0xAE, 0x4C, 0x0E, 0x04, 0xB5, 0x10, 0x00, 0x00, 0x0C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x02, 0x5A, 0xC9, 0x00, 0x02, 0x5E, 0xCA, 0x00, 0x03, 0x60, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x95, 0x50, 0x26, 0x21, 0x0C, 0xFD, 0x10, 0x95, 0x50, 0x26, 0x21, 0x1F, 0xEC, 0x16], // 15 SEN_Sensus-PolluStat-E.hex
    &[0x68, 0x41, 0x41, 0x68, 0x08, 0x00, 0x72, 0x89, 0x16, 0x35, 0x24, 0xAE, 0x4C, 0x0B, 0x04, 0x54, 0x10, 0x00, 0x00, 0x0C, 0x07, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x2C, 0x00, 0x00, 0x00, 0x00, 0x32, 0x5A, 0x00, 0x00, 0x32, 0x5E, 0x00, 0x00, 0x33, 0x60, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x89, 0x16, 0x35, 0x24, 0x0C, 0xFD, 0x10, 0x89, 0x16, 0x35, 0x24, 0xCE, 0x16], // 16 SEN_Sensus-PolluTherm.hex
    &[0x68, 0x5C, 0x5C, 0x68, 0x08, 0x04, 0x72, 0x14, 0x73, 0x81, 0x11, 0x82, 0x4D, 0x06, 0x04, 0x03, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x14, 0x73, 0x81, 0x11, 0x0C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x02, 0x00, 0x00, 0x00, 0x0A, 0x3B, 0x00, 0x00, 0x0B, 0x5A, 0x18, 0x02, 0x00, 0x0B, 0x5E, 0x20, 0x02, 0x00, 0x0B, 0x61, 0x18, 0x00, 0xF0, 0x32, 0x26, 0x00, 0x00, 0x02, 0x27, 0x98, 0x04, 0x04, 0x6D, 0x02, 0x0E, 0xCD, 0x13, 0x84, 0x40, 0x14, 0x7B, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x14, 0x41, 0x01, 0x00, 0x00, 0x09, 0xFD, 0x0E, 0x03, 0x09, 0xFD, 0x0F, 0x18, 0x0F, 0x00, 0x16, 0xDB, 0x16], // 17 SLB_CF-Compact-Integral-MK-MaXX.hex
    &[0x68, 0x52, 0x52, 0x68, 0x08, 0xE6, 0x72, 0x02, 0x00, 0x00, 0x00, 0x96, 0x15, 0x15, 0x00, 0x0D, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x1B, 0x02, 0x02, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0x34, 0x12, 0x22, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xC6, 0x0E, 0x12, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0x02, 0x14, 0x02, 0x65, 0xD6, 0x08, 0x22, 0x65, 0xCA, 0x08, 0x12, 0x65, 0x16, 0x09, 0x01, 0x72, 0x00, 0x72, 0x65, 0x00, 0x00, 0xB2, 0x01, 0x65, 0x00, 0x00, 0x0C, 0x78, 0x02, 0x00, 0x00, 0x00, 0x02, 0xFD, 0x0F, 0x04, 0x03, 0x1F, 0x96, 0x16], // 18 THI_cma10.hex
    &[0x68, 0xEF, 0xEF, 0x68, 0x08, 0x02, 0x72, 0x84, 0x50, 0x42, 0x31, 0x4D, 0x6A, 0x81, 0x04, 0x73, 0x27, 0x00, 0x00, 0x04, 0x06, 0x03, 0x00, 0x00, 0x00, 0x02, 0xFD, 0x17, 0x00, 0x00, 0x84, 0x04, 0x6D, 0x00, 0x00, 0xE1, 0x11, 0x84, 0x04, 0x06, 0x03, 0x00, 0x00, 0x00, 0x84, 0x05, 0x06, 0x03, 0x00, 0x00, 0x00, 0x04, 0x13, 0x4A, 0x00, 0x00, 0x00, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x54, 0x3B, 0x2B, 0x00, 0x00, 0x00, 0x54, 0x6D, 0x1E, 0x08, 0x61, 0x19, 0x04, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x94, 0x01, 0x2D, 0x14, 0x00, 0x00, 0x00, 0x94, 0x01, 0x6D, 0x1E, 0x08, 0x61, 0x19, 0x02, 0x59, 0x17, 0x08, 0x02, 0x5D, 0xF6, 0x07, 0x04, 0x6D, 0x2D, 0x0C, 0xCD, 0x13, 0x82, 0x80, 0x01, 0x6C, 0xC1, 0x13, 0x84, 0x80, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x80, 0x01, 0x6C, 0xC1, 0x12, 0xC4, 0x80, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x82, 0x81, 0x01, 0x6C, 0xC1, 0x11, 0x84, 0x81, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x81, 0x01, 0x6C, 0xA1, 0x1C, 0xC4, 0x81, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x82, 0x82, 0x01, 0x6C, 0xA1, 0x1B, 0x84, 0x82, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x82, 0x01, 0x6C, 0xA1, 0x1A, 0xC4, 0x82, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x82, 0x83, 0x01, 0x6C, 0xA1, 0x19, 0x84, 0x83, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x83, 0x01, 0x6C, 0xA1, 0x18, 0xC4, 0x83, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x92, 0x80, 0x01, 0x6C, 0xC1, 0x13, 0x94, 0x80, 0x01, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x94, 0x80, 0x01, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x8F, 0x16], // 19 ZRM_Minol-Minocal-C2.hex
    &[0x68, 0x98, 0x98, 0x68, 0x08, 0x01, 0x72, 0x12, 0x34, 0x56, 0x78, 0x42, 0x04, 0x02, 0x02, 0x45, 0x00, 0x00, 0x00, 0x0E, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x10, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x20, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xB0, 0x00, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x10, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x40, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x90, 0x40, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xA0, 0x40, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xB0, 0x40, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x50, 0x84, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0xFF, 0x93, 0x00, 0x00, 0x0C, 0xFF, 0x92, 0x00, 0x00, 0x00, 0x00, 0x01, 0x07, 0xFD, 0x97, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0xFF, 0x98, 0x00, 0x00, 0x1F, 0x75, 0x16], // 20 abb_delta.hex
    &[0x68, 0x5E, 0x5E, 0x68, 0x08, 0x00, 0x72, 0x90, 0x85, 0x71, 0x26, 0x24, 0x23, 0x28, 0x04, 0x73, 0x50, 0x00, 0x00, 0x0C, 0x05, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x12, 0x42, 0x07, 0x00, 0x00, 0x3C, 0x2A, 0xDD, 0xB4, 0xEB, 0xDD, 0x3B, 0x3A, 0xDD, 0xB4, 0xEB, 0x0A, 0x5A, 0x04, 0x02, 0x0A, 0x5E, 0x04, 0x02, 0x0A, 0x62, 0x00, 0x00, 0x04, 0x6D, 0x22, 0x10, 0x8D, 0x11, 0x4C, 0x05, 0x00, 0x00, 0x00, 0x00, 0x44, 0x6D, 0x3B, 0x17, 0x7E, 0x14, 0x44, 0xED, 0x7E, 0x3B, 0x17, 0x9E, 0x14, 0x8C, 0x01, 0x05, 0x00, 0x00, 0x00, 0x00, 0x84, 0x01, 0x6D, 0x3B, 0x17, 0x7F, 0x1C, 0x0B, 0x26, 0x53, 0x65, 0x08, 0x04, 0x16], // 21 abb_f95.hex
    &[0x68, 0x3D, 0x3D, 0x68, 0x08, 0x01, 0x72, 0x00, 0x51, 0x20, 0x02, 0x82, 0x4D, 0x02, 0x04, 0x00, 0x88, 0x00, 0x00, 0x04, 0x07, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x15, 0x03, 0x00, 0x00, 0x00, 0x0B, 0x2E, 0x00, 0x00, 0x00, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x0A, 0x5A, 0x88, 0x12, 0x0A, 0x5E, 0x16, 0x05, 0x0B, 0x61, 0x23, 0x77, 0x00, 0x02, 0x6C, 0x8C, 0x11, 0x02, 0x27, 0x37, 0x0D, 0x0F, 0x60, 0x00, 0x67, 0x16], // 22 allmess_cf50.hex
    &[0x68, 0x38, 0x38, 0x68, 0x08, 0xC8, 0x72, 0x09, 0x31, 0x54, 0x03, 0xB4, 0x05, 0xB0, 0x04, 0xC9, 0x10, 0xFF, 0xFF, 0x03, 0x22, 0x9A, 0x00, 0x00, 0x05, 0x2E, 0xA0, 0xC8, 0x51, 0x46, 0x05, 0x3E, 0xB4, 0xE3, 0xD7, 0x42, 0x05, 0x5B, 0x90, 0xD3, 0x07, 0x43, 0x05, 0x5F, 0x0E, 0xAA, 0xE7, 0x41, 0x05, 0x63, 0x9C, 0xBC, 0xD5, 0x42, 0x04, 0x6D, 0x10, 0x09, 0x05, 0xC5, 0x77, 0x16], // 23 amt_calec_mb.hex
    &[0x68, 0xA3, 0xA3, 0x68, 0x08, 0x00, 0x72, 0x00, 0x00, 0x00, 0x00, 0x42, 0x04, 0x02, 0x02, 0x00, 0x00, 0x00, 0x00, 0x0E, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x10, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x20, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xB0, 0x00, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x10, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x40, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x90, 0x40, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xA0, 0x40, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0xB0, 0x40, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x80, 0x50, 0x04, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0xFF, 0x13, 0x00, 0x0B, 0xFF, 0x12, 0x00, 0x00, 0x00, 0x0A, 0xFF, 0x68, 0x00, 0x00, 0x0A, 0xFF, 0x69, 0x00, 0x00, 0x07, 0xFD, 0x17, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0xFF, 0x18, 0x00, 0x1F, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xFC, 0x16], // 24 berg_dz_plus.hex
    &[0x68, 0x90, 0x90, 0x68, 0x08, 0x0A, 0x72, 0x78, 0x65, 0x34, 0x21, 0x24, 0x40, 0x01, 0x02, 0x55, 0x00, 0x00, 0x00, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x47, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x59, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x59, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x59, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x59, 0x56, 0x34, 0x12, 0x0B, 0x2A, 0x56, 0x34, 0x12, 0x0B, 0x2A, 0x56, 0x34, 0x12, 0x0B, 0x2A, 0x56, 0x34, 0x12, 0x0B, 0x2A, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x3A, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x3A, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x3A, 0x56, 0x34, 0x12, 0x0B, 0xFD, 0x3A, 0x56, 0x34, 0x12, 0x0A, 0xFD, 0x3A, 0x00, 0x05, 0x0A, 0xFD, 0x3A, 0x05, 0x00, 0x0A, 0xFD, 0x3A, 0x05, 0x00, 0x0A, 0xFD, 0x3A, 0x05, 0x00, 0x0A, 0xFD, 0x3A, 0x50, 0x00, 0x4D, 0x16], // 25 eastron_sdm630.hex
    &[0x68, 0x4A, 0x4A, 0x68, 0x08, 0x01, 0x72, 0x45, 0x23, 0x11, 0x70, 0x93, 0x15, 0x0A, 0x07, 0x02, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x67, 0x45, 0x23, 0x01, 0x04, 0x6D, 0x3A, 0x0D, 0xE6, 0x02, 0x42, 0x6C, 0xE1, 0x01, 0x4C, 0x13, 0x51, 0x69, 0x45, 0x00, 0x42, 0xEC, 0x7E, 0x01, 0x11, 0x12, 0x3B, 0x39, 0x17, 0x42, 0x6C, 0x01, 0x11, 0x02, 0x3B, 0xF9, 0x17, 0x0F, 0x0E, 0x42, 0x20, 0x01, 0x01, 0x01, 0x00, 0x05, 0x08, 0x5E, 0x01, 0x20, 0x3D, 0x12, 0x08, 0x3D, 0x12, 0x08, 0x00, 0xC0, 0x16], // 26 els_falcon.hex
    &[0x68, 0x2C, 0x2C, 0x68, 0x08, 0x01, 0x72, 0x45, 0x23, 0x11, 0x70, 0x93, 0x15, 0x02, 0x07, 0x02, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x67, 0x45, 0x23, 0x01, 0x04, 0x6D, 0x3A, 0x0D, 0xE6, 0x02, 0x42, 0x6C, 0xE1, 0x01, 0x4C, 0x13, 0x51, 0x69, 0x45, 0x00, 0x42, 0xEC, 0x7E, 0x01, 0x11, 0x0F, 0x00, 0x61, 0x16], // 27 els_tmpa_telegramm1.hex
    &[0x68, 0x53, 0x53, 0x68, 0x08, 0x05, 0x72, 0x34, 0x08, 0x00, 0x54, 0x96, 0x15, 0x32, 0x00, 0xF2, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x1B, 0x00, 0x02, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xD4, 0x11, 0x22, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xC8, 0x11, 0x12, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xB4, 0x16, 0x02, 0x65, 0xD0, 0x08, 0x22, 0x65, 0x70, 0x08, 0x12, 0x65, 0x23, 0x09, 0x01, 0x72, 0x18, 0x42, 0x65, 0xE4, 0x08, 0x82, 0x01, 0x65, 0xDD, 0x08, 0x0C, 0x78, 0x34, 0x08, 0x00, 0x54, 0x03, 0xFD, 0x0F, 0x00, 0x00, 0x04, 0x1F, 0x5D, 0x16], // 28 elv_temp_humid.hex
    &[0x68, 0x21, 0x21, 0x68, 0x08, 0x01, 0x72, 0x02, 0x37, 0x62, 0x00, 0xA8, 0x15, 0x00, 0x02, 0x07, 0x00, 0x00, 0x00, 0x8C, 0x10, 0x04, 0x09, 0x04, 0x00, 0x00, 0xC4, 0x00, 0x2A, 0x00, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x17, 0x00, 0x8C, 0x16], // 29 emh_diz.hex
    &[0x68, 0xA6, 0xA6, 0x68, 0x08, 0x03, 0x72, 0x10, 0x00, 0x38, 0x10, 0xC5, 0x14, 0x01, 0x04, 0x1E, 0x00, 0x00, 0x00, 0x04, 0x78, 0xEA, 0x62, 0x9E, 0x00, 0x04, 0x6D, 0x32, 0x14, 0x86, 0x16, 0x04, 0x15, 0x81, 0x00, 0x00, 0x00, 0x04, 0xFB, 0x00, 0x08, 0x00, 0x00, 0x00, 0x84, 0x20, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0x84, 0x30, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0x04, 0x3D, 0x00, 0x00, 0x00, 0x00, 0x04, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x02, 0x5B, 0x5F, 0x00, 0x02, 0x5F, 0x2B, 0x00, 0x04, 0x61, 0x8A, 0x14, 0x00, 0x00, 0x02, 0x27, 0xFA, 0x01, 0x01, 0xFD, 0x17, 0x00, 0x04, 0x90, 0x28, 0xA0, 0x86, 0x01, 0x00, 0x42, 0x6C, 0x7F, 0x1C, 0x44, 0x15, 0x81, 0x00, 0x00, 0x00, 0x44, 0xFB, 0x00, 0x08, 0x00, 0x00, 0x00, 0xC4, 0x20, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x30, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0x82, 0x01, 0x6C, 0x5F, 0x1C, 0x84, 0x01, 0x15, 0x54, 0x00, 0x00, 0x00, 0x84, 0x01, 0xFB, 0x00, 0x05, 0x00, 0x00, 0x00, 0x84, 0x21, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0x84, 0x31, 0xFB, 0x00, 0x00, 0x00, 0x00, 0x00, 0xB7, 0x16], // 30 engelmann_sensostar2c.hex
    &[0x68, 0x31, 0x31, 0x68, 0x08, 0x01, 0x72, 0x45, 0x58, 0x57, 0x03, 0xB4, 0x05, 0x34, 0x04, 0x9E, 0x00, 0x27, 0xB6, 0x03, 0x06, 0xF9, 0x34, 0x15, 0x03, 0x15, 0xC6, 0x00, 0x4D, 0x05, 0x2E, 0x00, 0x00, 0x00, 0x00, 0x05, 0x3D, 0x00, 0x00, 0x00, 0x00, 0x05, 0x5B, 0x22, 0xF3, 0x26, 0x42, 0x05, 0x5F, 0xC7, 0xDA, 0x0D, 0x42, 0xFA, 0x16], // 31 example_data_01.hex
    &[0x68, 0x31, 0x31, 0x68, 0x08, 0x01, 0x72, 0x45, 0x58, 0x57, 0x03, 0xB4, 0x05, 0x34, 0x04, 0xA1, 0x00, 0x27, 0xB6, 0x03, 0x06, 0xF9, 0x34, 0x15, 0x03, 0x15, 0xC6, 0x00, 0x4D, 0x05, 0x2E, 0x00, 0x00, 0x00, 0x00, 0x05, 0x3D, 0x00, 0x00, 0x00, 0x00, 0x05, 0x5B, 0x1E, 0xD8, 0x24, 0x42, 0x05, 0x5F, 0xD9, 0x8A, 0x0D, 0x42, 0x9E, 0x16], // 32 example_data_02.hex
    &[0x68, 0x1F, 0x1F, 0x68, 0x08, 0x00, 0x72, 0x31, 0x77, 0x67, 0x17, 0x2D, 0x2C, 0x01, 0x02, 0x00, 0x00, 0x00, 0x00, 0x2F, 0x2F, 0x04, 0x83, 0x3B, 0x88, 0x13, 0x00, 0x00, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x2F, 0x00, 0x16], // 33 filler.hex
    &[0x68, 0x54, 0x54, 0x68, 0x08, 0x00, 0x72, 0x58, 0x09, 0x06, 0x10, 0x65, 0x32, 0x16, 0x0E, 0x7B, 0x00, 0x00, 0x00, 0x0F, 0x5F, 0x42, 0x01, 0x11, 0xFF, 0xFF, 0xFF, 0xFF, 0x01, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xE6, 0x16], // 34 frame1.hex
    &[0x68, 0x1F, 0x1F, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x60, 0x04, 0x37, 0x18, 0x02, 0x18, 0x16], // 35 frame2.hex
    &[0x68, 0x91, 0x91, 0x68, 0x08, 0x03, 0x72, 0x78, 0x56, 0x34, 0x12, 0xA3, 0x1D, 0xE6, 0x02, 0x02, 0x00, 0x00, 0x00, 0x82, 0x40, 0xFD, 0x48, 0x60, 0x03, 0x82, 0x80, 0x40, 0xFD, 0x48, 0xBF, 0x03, 0x82, 0xC0, 0x40, 0xFD, 0x48, 0x20, 0x04, 0x82, 0x40, 0xFD, 0x59, 0xBD, 0x03, 0x82, 0x80, 0x40, 0xFD, 0x59, 0x1F, 0x04, 0x82, 0xC0, 0x40, 0xFD, 0x59, 0x7E, 0x04, 0x82, 0x40, 0x2B, 0xE0, 0x00, 0x82, 0x40, 0x2B, 0x36, 0xFF, 0x84, 0x10, 0x04, 0x94, 0x28, 0x00, 0x00, 0x84, 0x20, 0x04, 0x98, 0x3A, 0x00, 0x00, 0x84, 0x50, 0x04, 0xBF, 0x4E, 0x00, 0x00, 0x84, 0x60, 0x04, 0xA8, 0x61, 0x00, 0x00, 0x84, 0x90, 0x40, 0x04, 0x8B, 0x75, 0x00, 0x00, 0x84, 0xA0, 0x40, 0x04, 0xB8, 0x88, 0x00, 0x00, 0x84, 0xD0, 0x40, 0x04, 0x2D, 0x9D, 0x00, 0x00, 0x84, 0xE0, 0x40, 0x04, 0xC8, 0xAF, 0x00, 0x00, 0x82, 0x41, 0x2B, 0xE0, 0x00, 0x82, 0x42, 0x2B, 0x00, 0x00, 0x82, 0x43, 0x2B, 0x00, 0x00, 0x82, 0x44, 0x2B, 0xCA, 0x00, 0x42, 0x16], // 36 gmc_emmod206.hex
    &[0x68, 0x3C, 0x3C, 0x68, 0x08, 0x08, 0x72, 0x78, 0x03, 0x49, 0x11, 0x77, 0x04, 0x0E, 0x16, 0x29, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x78, 0x03, 0x49, 0x11, 0x04, 0x13, 0x31, 0xD4, 0x00, 0x00, 0x42, 0x6C, 0x00, 0x00, 0x44, 0x13, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x1D, 0x0D, 0x98, 0x11, 0x02, 0x27, 0x00, 0x00, 0x09, 0xFD, 0x0E, 0x02, 0x09, 0xFD, 0x0F, 0x06, 0x0F, 0x00, 0x00, 0x8F, 0x13, 0xE8, 0x16], // 37 itron_bm_+m.hex
    &[0x68, 0x64, 0x64, 0x68, 0x08, 0x06, 0x72, 0x85, 0x51, 0x15, 0x11, 0x77, 0x04, 0x0A, 0x0D, 0x1B, 0x10, 0x00, 0x00, 0x0C, 0x78, 0x85, 0x51, 0x15, 0x11, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x3B, 0x2D, 0x99, 0x99, 0x99, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x3A, 0x5A, 0x99, 0x99, 0x3A, 0x5E, 0x99, 0x99, 0x3B, 0x61, 0x99, 0x99, 0x99, 0x04, 0x6D, 0x18, 0x0D, 0x98, 0x11, 0x02, 0x27, 0x68, 0x00, 0x09, 0xFD, 0x0E, 0x11, 0x09, 0xFD, 0x0F, 0x26, 0x8C, 0xC0, 0x00, 0x16, 0x21, 0x03, 0x00, 0x00, 0x8C, 0x80, 0x40, 0x14, 0x23, 0x01, 0x00, 0x00, 0x04, 0x86, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x0F, 0x03, 0x20, 0x85, 0x16], // 38 itron_cf_51.hex
    &[0x68, 0x4D, 0x4D, 0x68, 0x08, 0x07, 0x72, 0x67, 0x76, 0x12, 0x11, 0x77, 0x04, 0x0B, 0x0C, 0x0B, 0x10, 0x00, 0x00, 0x0C, 0x78, 0x67, 0x76, 0x12, 0x11, 0x04, 0x07, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x16, 0x00, 0x00, 0x00, 0x00, 0x3B, 0x2D, 0x99, 0x99, 0x99, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x3A, 0x5A, 0x99, 0x99, 0x3A, 0x5E, 0x99, 0x99, 0x3B, 0x61, 0x99, 0x99, 0x99, 0x04, 0x6D, 0x2F, 0x0B, 0x98, 0x11, 0x02, 0x27, 0xFC, 0x00, 0x09, 0xFD, 0x0E, 0x10, 0x09, 0xFD, 0x0F, 0x21, 0x0F, 0x03, 0x20, 0x54, 0x16], // 39 itron_cf_55.hex
    &[0x68, 0x4D, 0x4D, 0x68, 0x08, 0x09, 0x72, 0x91, 0x00, 0x10, 0x11, 0x77, 0x04, 0x09, 0x04, 0x51, 0x10, 0x00, 0x00, 0x0C, 0x78, 0x91, 0x00, 0x10, 0x11, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x3B, 0x2D, 0x99, 0x99, 0x99, 0x3B, 0x3B, 0x99, 0x99, 0x99, 0x0A, 0x5A, 0x05, 0x02, 0x0A, 0x5E, 0x06, 0x02, 0x0B, 0x61, 0x09, 0x00, 0x00, 0x04, 0x6D, 0x1D, 0x0D, 0x98, 0x11, 0x02, 0x27, 0x81, 0x01, 0x09, 0xFD, 0x0E, 0x19, 0x09, 0xFD, 0x0F, 0x45, 0x0F, 0x20, 0x00, 0xE7, 0x16], // 40 itron_cf_echo_2.hex
    &[0x68, 0x56, 0x56, 0x68, 0x08, 0x08, 0x72, 0x80, 0x03, 0x02, 0x10, 0x77, 0x04, 0x14, 0x16, 0xA1, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x80, 0x03, 0x02, 0x10, 0x0D, 0x7C, 0x08, 0x44, 0x49, 0x20, 0x2E, 0x74, 0x73, 0x75, 0x63, 0x0A, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x04, 0x6D, 0x27, 0x0F, 0x79, 0x1A, 0x02, 0x7C, 0x09, 0x65, 0x6D, 0x69, 0x74, 0x20, 0x2E, 0x74, 0x61, 0x62, 0xD2, 0x0F, 0x04, 0x15, 0xB7, 0x11, 0x00, 0x00, 0x04, 0x95, 0x7F, 0x00, 0x00, 0x00, 0x00, 0x44, 0x15, 0xB7, 0x11, 0x00, 0x00, 0x0F, 0x00, 0x04, 0x1F, 0x0D, 0x16], // 41 itron_cyble_m-bus_v1.4_cold_water.hex
    &[0x68, 0x56, 0x56, 0x68, 0x08, 0x04, 0x72, 0x87, 0x03, 0x02, 0x10, 0x77, 0x04, 0x14, 0x03, 0x9A, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x87, 0x03, 0x02, 0x10, 0x0D, 0x7C, 0x08, 0x44, 0x49, 0x20, 0x2E, 0x74, 0x73, 0x75, 0x63, 0x0A, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x20, 0x04, 0x6D, 0x2B, 0x0F, 0x79, 0x1A, 0x02, 0x7C, 0x09, 0x65, 0x6D, 0x69, 0x74, 0x20, 0x2E, 0x74, 0x61, 0x62, 0xD2, 0x0F, 0x04, 0x14, 0x1A, 0x00, 0x00, 0x00, 0x04, 0x94, 0x7F, 0x00, 0x00, 0x00, 0x00, 0x44, 0x14, 0x19, 0x00, 0x00, 0x00, 0x0F, 0x00, 0x02, 0x1F, 0x9F, 0x16], // 42 itron_cyble_m-bus_v1.4_gas.hex
    &[0x68, 0x56, 0x56, 0x68, 0x08, 0x01, 0x72, 0x71, 0x00, 0x00, 0x12, 0x77, 0x04, 0x14, 0x07, 0x0A, 0x30, 0x00, 0x00, 0x0C, 0x78, 0x71, 0x00, 0x00, 0x12, 0x0D, 0x7C, 0x08, 0x44, 0x49, 0x20, 0x2E, 0x74, 0x73, 0x75, 0x63, 0x0A, 0x45, 0x4C, 0x42, 0x59, 0x43, 0x20, 0x54, 0x53, 0x45, 0x54, 0x04, 0x6D, 0x2B, 0x0D, 0x98, 0x11, 0x02, 0x7C, 0x09, 0x65, 0x6D, 0x69, 0x74, 0x20, 0x2E, 0x74, 0x61, 0x62, 0xF2, 0x10, 0x04, 0x14, 0x3D, 0x30, 0x00, 0x00, 0x04, 0x94, 0x7F, 0x14, 0x00, 0x00, 0x00, 0x44, 0x14, 0x00, 0x00, 0x00, 0x00, 0x0F, 0x10, 0x01, 0x1F, 0x2F, 0x16], // 43 itron_cyble_m-bus_v1.4_water.hex
    &[0x68, 0x5C, 0x5C, 0x68, 0x08, 0x04, 0x72, 0x14, 0x73, 0x81, 0x11, 0x82, 0x4D, 0x06, 0x04, 0x5D, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x14, 0x73, 0x81, 0x11, 0x0C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x02, 0x00, 0x00, 0x00, 0x0A, 0x3B, 0x00, 0x00, 0x0B, 0x5A, 0x12, 0x02, 0x00, 0x0B, 0x5E, 0x11, 0x02, 0x00, 0x0B, 0x61, 0x07, 0x00, 0x00, 0x32, 0x26, 0x00, 0x00, 0x02, 0x27, 0x8D, 0x01, 0x04, 0x6D, 0x11, 0x0E, 0x98, 0x11, 0x84, 0x40, 0x14, 0x7B, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x14, 0x41, 0x01, 0x00, 0x00, 0x09, 0xFD, 0x0E, 0x03, 0x09, 0xFD, 0x0F, 0x18, 0x0F, 0x00, 0x16, 0xE9, 0x16], // 44 itron_integral_mk_maxx.hex
    &[0x68, 0x46, 0x46, 0x68, 0x08, 0x78, 0x72, 0x20, 0x91, 0x83, 0x14, 0x2D, 0x2C, 0x01, 0x02, 0x04, 0x00, 0x00, 0x00, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0x04, 0x22, 0x09, 0x00, 0x00, 0x00, 0x04, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x14, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x84, 0x50, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x60, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0F, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10, 0x24, 0x16], // 45 kamstrup_382_005.hex
    &[0x68, 0xF7, 0xF7, 0x68, 0x08, 0x11, 0x72, 0x17, 0x58, 0x85, 0x06, 0x2D, 0x2C, 0x08, 0x04, 0x04, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x17, 0x58, 0x85, 0x06, 0x04, 0x06, 0xE7, 0x91, 0x00, 0x00, 0x04, 0x14, 0x2C, 0xDB, 0x00, 0x00, 0x04, 0x22, 0xD9, 0x03, 0x00, 0x00, 0x04, 0x59, 0xB9, 0x27, 0x00, 0x00, 0x04, 0x5D, 0x08, 0x12, 0x00, 0x00, 0x04, 0x61, 0xB1, 0x15, 0x00, 0x00, 0x04, 0x2D, 0x5B, 0x01, 0x00, 0x00, 0x14, 0x2D, 0xC0, 0x01, 0x00, 0x00, 0x04, 0x3B, 0x1F, 0x02, 0x00, 0x00, 0x14, 0x3B, 0x74, 0x02, 0x00, 0x00, 0x84, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x20, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0x84, 0xC0, 0x40, 0x06, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x1A, 0x2F, 0x65, 0x11, 0x44, 0x06, 0x51, 0x82, 0x00, 0x00, 0x44, 0x14, 0xB2, 0xC3, 0x00, 0x00, 0x54, 0x2D, 0x26, 0x02, 0x00, 0x00, 0x54, 0x3B, 0x03, 0x04, 0x00, 0x00, 0xC4, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x20, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x80, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0xC4, 0xC0, 0x40, 0x06, 0x00, 0x00, 0x00, 0x00, 0x42, 0x6C, 0x5F, 0x1C, 0x0F, 0x00, 0x00, 0x00, 0x00, 0xE7, 0xE4, 0x00, 0x00, 0x63, 0x66, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x5B, 0xC9, 0xA5, 0x02, 0x34, 0x53, 0x00, 0x00, 0xE0, 0xB2, 0x03, 0x00, 0x89, 0x9C, 0x68, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0x00, 0x01, 0x07, 0x07, 0x09, 0x01, 0x03, 0x00, 0x00, 0x00, 0x00, 0x00, 0x98, 0x16], // 46 kamstrup_multical_601.hex
    &[0x68, 0xE2, 0xE2, 0x68, 0x08, 0x00, 0x72, 0x05, 0x02, 0x66, 0x66, 0xA7, 0x32, 0x07, 0x04, 0x01, 0x10, 0x00, 0x00, 0x09, 0x74, 0x04, 0x09, 0x70, 0x08, 0x0C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x0B, 0x2D, 0x00, 0x00, 0x00, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x0B, 0x5A, 0x95, 0x01, 0x00, 0x0B, 0x5E, 0x97, 0x01, 0x00, 0x0B, 0x62, 0x02, 0x00, 0xF0, 0x0C, 0x78, 0x05, 0x02, 0x66, 0x66, 0x89, 0x10, 0x71, 0x07, 0x3C, 0x22, 0x69, 0x37, 0x00, 0x00, 0x0C, 0x22, 0x69, 0x37, 0x00, 0x00, 0x0C, 0x26, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x90, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x9B, 0x10, 0x2D, 0x00, 0x00, 0x00, 0x9B, 0x10, 0x3B, 0x00, 0x00, 0x00, 0x9B, 0x10, 0x5A, 0x07, 0x03, 0x00, 0x9B, 0x10, 0x5E, 0x07, 0x05, 0x00, 0x94, 0x10, 0xAD, 0x6F, 0x00, 0x00, 0x00, 0x00, 0x94, 0x10, 0xBB, 0x6F, 0x00, 0x00, 0x00, 0x00, 0x94, 0x10, 0xDA, 0x6F, 0x32, 0x14, 0x7A, 0x18, 0x94, 0x10, 0xDE, 0x6F, 0x2B, 0x0B, 0x69, 0x18, 0x4C, 0x06, 0x00, 0x00, 0x00, 0x00, 0x4C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x7C, 0x22, 0x69, 0x34, 0x00, 0x00, 0x4C, 0x26, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x90, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0xDB, 0x10, 0x2D, 0x00, 0x00, 0x00, 0xDB, 0x10, 0x3B, 0x00, 0x00, 0x00, 0xDB, 0x10, 0x5A, 0x07, 0x03, 0x00, 0xDB, 0x10, 0x5E, 0x07, 0x05, 0x00, 0x84, 0x8F, 0x0F, 0x6D, 0x00, 0x00, 0xE1, 0xF1, 0x04, 0x6D, 0x04, 0x0C, 0x8D, 0x11, 0x0F, 0x09, 0x07, 0x00, 0x66, 0x01, 0x7D, 0x16], // 47 landis+gyr_ultraheat_t230.hex
    &[0x68, 0x13, 0x13, 0x68, 0x08, 0x05, 0x73, 0x78, 0x56, 0x34, 0x12, 0x0A, 0x00, 0xE9, 0x7E, 0x01, 0x00, 0x00, 0x00, 0x35, 0x01, 0x00, 0x00, 0x3C, 0x16], // 48 manual_frame2.hex
    &[0x68, 0x15, 0x15, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x13, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x04, 0x03, 0x02, 0x01, 0x9D, 0x16], // 49 manual_frame7.hex
    &[0x68, 0x42, 0x42, 0x68, 0x08, 0x00, 0x72, 0x46, 0x01, 0x95, 0x44, 0x18, 0x4E, 0x34, 0x04, 0x54, 0x10, 0x00, 0x00, 0x0C, 0x07, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x2C, 0x00, 0x00, 0x00, 0x00, 0x0A, 0x5A, 0x00, 0x00, 0x0A, 0x5E, 0x00, 0x00, 0x0B, 0x60, 0x00, 0x00, 0x00, 0x0C, 0x78, 0x46, 0x01, 0x95, 0x44, 0x0C, 0xFD, 0x10, 0x46, 0x01, 0x95, 0x44, 0x1F, 0x82, 0x16], // 50 metrona_pollutherm.hex
    &[0x68, 0xF8, 0xF8, 0x68, 0x08, 0x64, 0x72, 0x54, 0x00, 0x81, 0x01, 0xA7, 0x32, 0x02, 0x04, 0x0F, 0x10, 0x00, 0x00, 0x09, 0x74, 0x04, 0x09, 0x70, 0x04, 0x0C, 0x06, 0x69, 0x99, 0x01, 0x00, 0x0C, 0x14, 0x18, 0x92, 0x64, 0x02, 0x0B, 0x2E, 0x00, 0x00, 0x00, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x0A, 0x5B, 0x00, 0x00, 0x0A, 0x5F, 0x00, 0x00, 0x0A, 0x62, 0x00, 0x00, 0x4C, 0x14, 0x18, 0x92, 0x64, 0x02, 0x4C, 0x06, 0x69, 0x99, 0x01, 0x00, 0x0C, 0x78, 0x54, 0x00, 0x11, 0x65, 0x89, 0x10, 0x71, 0x60, 0x9B, 0x10, 0x2D, 0x16, 0x03, 0x00, 0xDB, 0x10, 0x2D, 0x16, 0x03, 0x00, 0x9B, 0x10, 0x3B, 0x20, 0x88, 0x00, 0x9A, 0x10, 0x5B, 0x44, 0x00, 0x9A, 0x10, 0x5F, 0x40, 0x00, 0x0C, 0x22, 0x67, 0x00, 0x07, 0x00, 0x3C, 0x22, 0x09, 0x16, 0x05, 0x00, 0x7C, 0x22, 0x17, 0x78, 0x04, 0x00, 0x42, 0x6C, 0x01, 0x01, 0x8C, 0x20, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x30, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x80, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x20, 0x06, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x30, 0x06, 0x00, 0x00, 0x00, 0x00, 0xCC, 0x80, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x9A, 0x11, 0x5B, 0x36, 0x00, 0x9A, 0x11, 0x5F, 0x40, 0x00, 0x9B, 0x11, 0x3B, 0x00, 0x00, 0x00, 0x9B, 0x11, 0x2D, 0x00, 0x00, 0x00, 0xBC, 0x01, 0x22, 0x65, 0x14, 0x05, 0x00, 0x8C, 0x01, 0x06, 0x69, 0x99, 0x01, 0x00, 0x8C, 0x21, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x31, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x81, 0x10, 0x06, 0x00, 0x00, 0x00, 0x00, 0x8C, 0x01, 0x14, 0x18, 0x92, 0x64, 0x02, 0x04, 0x6D, 0x26, 0x00, 0x87, 0x16, 0x0F, 0x03, 0x02, 0x00, 0x00, 0x23, 0x46, 0x16], // 51 metrona_ultraheat_xs.hex
    &[0x68, 0xEF, 0xEF, 0x68, 0x08, 0x02, 0x72, 0x84, 0x50, 0x42, 0x31, 0x4D, 0x6A, 0x81, 0x04, 0x24, 0x27, 0x00, 0x00, 0x04, 0x06, 0x03, 0x00, 0x00, 0x00, 0x02, 0xFD, 0x17, 0x00, 0x00, 0x84, 0x04, 0x6D, 0x00, 0x00, 0xA1, 0x11, 0x84, 0x04, 0x06, 0x03, 0x00, 0x00, 0x00, 0x84, 0x05, 0x06, 0x00, 0x00, 0x00, 0x00, 0x04, 0x13, 0x49, 0x00, 0x00, 0x00, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x54, 0x3B, 0x2B, 0x00, 0x00, 0x00, 0x54, 0x6D, 0x1E, 0x08, 0x61, 0x19, 0x04, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x94, 0x01, 0x2D, 0x14, 0x00, 0x00, 0x00, 0x94, 0x01, 0x6D, 0x1E, 0x08, 0x61, 0x19, 0x02, 0x59, 0xD9, 0x07, 0x02, 0x5D, 0x87, 0x07, 0x04, 0x6D, 0x35, 0x0B, 0x8D, 0x11, 0x82, 0x80, 0x01, 0x6C, 0x81, 0x11, 0x84, 0x80, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x80, 0x01, 0x6C, 0x61, 0x1C, 0xC4, 0x80, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x82, 0x81, 0x01, 0x6C, 0x61, 0x1B, 0x84, 0x81, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0xC2, 0x81, 0x01, 0x6C, 0x61, 0x1A, 0xC4, 0x81, 0x01, 0x06, 0x03, 0x00, 0x00, 0x00, 0x82, 0x82, 0x01, 0x6C, 0x61, 0x19, 0x84, 0x82, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC2, 0x82, 0x01, 0x6C, 0x61, 0x18, 0xC4, 0x82, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0x82, 0x83, 0x01, 0x6C, 0x61, 0x17, 0x84, 0x83, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC2, 0x83, 0x01, 0x6C, 0x61, 0x16, 0xC4, 0x83, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0x92, 0x80, 0x01, 0x6C, 0x81, 0x11, 0x94, 0x80, 0x01, 0x3B, 0x01, 0x00, 0x00, 0x00, 0x94, 0x80, 0x01, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x8E, 0x16], // 52 minol_minocal_c2.hex
    &[0x68, 0xCD, 0xCD, 0x68, 0x08, 0x00, 0x72, 0x59, 0x27, 0x80, 0x31, 0x4D, 0x6A, 0x82, 0x04, 0x2B, 0x00, 0x00, 0x00, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0x04, 0x14, 0x01, 0x00, 0x00, 0x00, 0x04, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x04, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x02, 0x59, 0x00, 0x00, 0x02, 0x5D, 0x00, 0x00, 0x84, 0x04, 0x06, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x04, 0x6D, 0x00, 0x00, 0x81, 0x11, 0x94, 0x01, 0x2D, 0x00, 0x00, 0x00, 0x00, 0x94, 0x01, 0x6D, 0x1E, 0x0B, 0x8D, 0x11, 0x54, 0x3C, 0x01, 0x00, 0x00, 0x00, 0x54, 0x6D, 0x1E, 0x07, 0x78, 0x13, 0x8C, 0x40, 0x79, 0x00, 0x00, 0x00, 0x00, 0x81, 0x40, 0xFD, 0x09, 0x07, 0x84, 0x40, 0x13, 0x01, 0x00, 0x00, 0x00, 0xC4, 0x04, 0x13, 0x01, 0x00, 0x00, 0x00, 0x8C, 0x80, 0x40, 0x79, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x13, 0x01, 0x00, 0x00, 0x00, 0x81, 0x80, 0x40, 0xFD, 0x09, 0x07, 0x84, 0x05, 0x13, 0x01, 0x00, 0x00, 0x00, 0x02, 0xFD, 0x17, 0x04, 0x00, 0x04, 0x6D, 0x01, 0x0C, 0x8D, 0x11, 0x82, 0x80, 0x01, 0x6C, 0x81, 0x11, 0x84, 0x80, 0x01, 0x06, 0x00, 0x00, 0x00, 0x00, 0x84, 0xC0, 0x01, 0x13, 0x01, 0x00, 0x00, 0x00, 0x84, 0x80, 0x41, 0x13, 0x01, 0x00, 0x00, 0x00, 0x92, 0x80, 0x01, 0x6C, 0x81, 0x11, 0x94, 0x80, 0x01, 0x3C, 0x00, 0x00, 0x00, 0x00, 0x94, 0x80, 0x01, 0x2D, 0x00, 0x00, 0x00, 0x00, 0xAA, 0x16], // 53 minol_minocal_wr3.hex
    &[0x68, 0x32, 0x32, 0x68, 0x08, 0x05, 0x72, 0x08, 0x06, 0x10, 0x30, 0x52, 0x3B, 0x01, 0x02, 0x01, 0x00, 0x00, 0x00, 0x04, 0x03, 0xFA, 0x04, 0x00, 0x00, 0x04, 0x83, 0x7F, 0xFA, 0x04, 0x00, 0x00, 0x02, 0xFD, 0x48, 0x44, 0x09, 0x02, 0xFD, 0x5B, 0x00, 0x00, 0x02, 0x2B, 0x00, 0x00, 0x0C, 0x78, 0x08, 0x06, 0x10, 0x30, 0x0F, 0x0E, 0x71, 0x16], // 54 nzr_dhz_5_63.hex
    &[0x68, 0x20, 0x20, 0x68, 0x08, 0xFD, 0x72, 0x78, 0x56, 0x34, 0x12, 0x93, 0x15, 0x33, 0x03, 0x2A, 0x00, 0x00, 0x00, 0x0C, 0x14, 0x27, 0x04, 0x85, 0x02, 0x04, 0x6D, 0x32, 0x37, 0x1F, 0x15, 0x02, 0xFD, 0x17, 0x00, 0x00, 0x89, 0x16], // 55 oms_frame1.hex
    &[0x68, 0x29, 0x29, 0x68, 0x08, 0xFD, 0x72, 0x44, 0x22, 0x75, 0x92, 0x24, 0x23, 0x29, 0x07, 0x1F, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x27, 0x04, 0x85, 0x02, 0x0B, 0x3B, 0x27, 0x01, 0x00, 0x4C, 0x13, 0x19, 0x54, 0x44, 0x01, 0x42, 0x6C, 0xFF, 0x0C, 0x02, 0xFD, 0x17, 0x00, 0x00, 0x99, 0x16], // 56 oms_frame2.hex
    &[0x68, 0x3C, 0x3C, 0x68, 0x08, 0xFD, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x23, 0x2A, 0x04, 0x26, 0x00, 0x00, 0x00, 0x0C, 0x06, 0x27, 0x04, 0x85, 0x02, 0x0C, 0x13, 0x76, 0x34, 0x70, 0x00, 0x4C, 0x06, 0x19, 0x54, 0x44, 0x01, 0x42, 0x6C, 0xFF, 0x0C, 0x0B, 0x3B, 0x27, 0x01, 0x00, 0x0B, 0x2A, 0x97, 0x32, 0x00, 0x0A, 0x5A, 0x43, 0x04, 0x0A, 0x5E, 0x51, 0x02, 0x02, 0xFD, 0x17, 0x00, 0x00, 0xC8, 0x16], // 57 oms_frame3.hex
    &[0x68, 0xC4, 0xC4, 0x68, 0x08, 0x00, 0x72, 0x76, 0x57, 0x02, 0x00, 0x2D, 0x48, 0x03, 0x07, 0x8B, 0x00, 0x00, 0x00, 0x04, 0x13, 0x84, 0x27, 0x00, 0x00, 0x04, 0x6D, 0x28, 0x15, 0xB2, 0x1A, 0x42, 0x6C, 0xBC, 0x19, 0x44, 0x13, 0xC9, 0x20, 0x00, 0x00, 0x42, 0xEC, 0x7E, 0xDC, 0x19, 0x0C, 0x78, 0x76, 0x57, 0x02, 0x00, 0x82, 0x01, 0x6C, 0xBE, 0x19, 0x84, 0x01, 0x13, 0x4F, 0x21, 0x00, 0x00, 0xC2, 0x01, 0x6C, 0x9F, 0x1A, 0xC4, 0x01, 0x13, 0xFB, 0xE0, 0xF5, 0x05, 0x82, 0x02, 0x6C, 0x9E, 0x1B, 0x84, 0x02, 0x13, 0xF9, 0xE0, 0xF5, 0x05, 0xC2, 0x02, 0x6C, 0x9F, 0x1C, 0xC4, 0x02, 0x13, 0x0E, 0x03, 0x00, 0x00, 0x82, 0x03, 0x6C, 0xBF, 0x11, 0x84, 0x03, 0x13, 0x89, 0x07, 0x00, 0x00, 0xC2, 0x03, 0x6C, 0xBC, 0x12, 0xC4, 0x03, 0x13, 0x14, 0x0C, 0x00, 0x00, 0x82, 0x04, 0x6C, 0xBF, 0x13, 0x84, 0x04, 0x13, 0x35, 0x12, 0x00, 0x00, 0xC2, 0x04, 0x6C, 0xBE, 0x14, 0xC4, 0x04, 0x13, 0x9F, 0x12, 0x00, 0x00, 0x82, 0x05, 0x6C, 0xBF, 0x15, 0x84, 0x05, 0x13, 0x04, 0x14, 0x00, 0x00, 0xC2, 0x05, 0x6C, 0xBE, 0x16, 0xC4, 0x05, 0x13, 0x38, 0x14, 0x00, 0x00, 0x82, 0x06, 0x6C, 0xBF, 0x17, 0x84, 0x06, 0x13, 0x7E, 0x14, 0x00, 0x00, 0xC2, 0x06, 0x6C, 0xBF, 0x18, 0xC4, 0x06, 0x13, 0x24, 0x16, 0x00, 0x00, 0x0F, 0x01, 0x00, 0x00, 0x82, 0x16], // 58 ram_modularis.hex
    &[0x68, 0x2F, 0x2F, 0x68, 0x08, 0x04, 0x72, 0x04, 0x00, 0x00, 0x00, 0xAC, 0x48, 0x12, 0x00, 0x01, 0x00, 0x00, 0x00, 0x0C, 0x00, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x10, 0x0D, 0x34, 0x09, 0x42, 0x6C, 0x1F, 0x0C, 0x4C, 0x00, 0x00, 0x00, 0x00, 0x00, 0x42, 0xEC, 0x7E, 0x3F, 0x0C, 0x0F, 0x43, 0x01, 0x01, 0x00, 0xD0, 0x16], // 59 rel_padpuls2.hex
    &[0x68, 0x2F, 0x2F, 0x68, 0x08, 0x01, 0x72, 0x01, 0x01, 0x03, 0x01, 0xAC, 0x48, 0x40, 0x08, 0x1E, 0x00, 0x00, 0x00, 0x0C, 0x6E, 0x87, 0x19, 0x00, 0x00, 0x04, 0x6D, 0x29, 0x0A, 0x1F, 0x0C, 0x42, 0x6C, 0x1F, 0x0C, 0x4C, 0x6E, 0x02, 0x13, 0x00, 0x00, 0x42, 0xEC, 0x7E, 0x3F, 0x0C, 0x0F, 0xC0, 0x01, 0x01, 0x0C, 0x40, 0x16], // 60 rel_padpuls3.hex
    &[0x68, 0x42, 0x42, 0x68, 0x08, 0x00, 0x72, 0x45, 0x00, 0x94, 0x63, 0xAE, 0x4C, 0x08, 0x04, 0xF9, 0x00, 0x00, 0x00, 0x0C, 0x06, 0x19, 0x90, 0x01, 0x00, 0x0C, 0x13, 0x19, 0x11, 0x62, 0x01, 0x0C, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x2B, 0x00, 0x00, 0x00, 0x00, 0x02, 0x5A, 0x67, 0x01, 0x02, 0x5E, 0xE9, 0x00, 0x03, 0x60, 0x46, 0x31, 0x00, 0x0C, 0x78, 0x45, 0x00, 0x94, 0x63, 0x0C, 0xFD, 0x10, 0x45, 0x00, 0x94, 0x63, 0x1F, 0xB6, 0x16], // 61 sen_pollucom_e.hex
    &[0x68, 0x13, 0x13, 0x68, 0x08, 0x01, 0x73, 0x93, 0x92, 0x91, 0x90, 0x10, 0x00, 0x05, 0x69, 0x31, 0x65, 0x00, 0x00, 0x69, 0x00, 0x00, 0x00, 0x3F, 0x16], // 62 sen_pollusonic_2.hex
    &[0x68, 0x42, 0x42, 0x68, 0x08, 0x08, 0x72, 0x76, 0x00, 0x05, 0x21, 0x18, 0x4E, 0x31, 0x04, 0x51, 0x00, 0x00, 0x00, 0x0C, 0x07, 0x64, 0x08, 0x00, 0x00, 0x0C, 0x14, 0x92, 0x98, 0x79, 0x00, 0x0C, 0x7B, 0x02, 0x03, 0x00, 0x00, 0x0C, 0x2C, 0x58, 0x54, 0x00, 0x00, 0x0A, 0x5A, 0x55, 0x07, 0x0A, 0x5E, 0x94, 0x05, 0x0B, 0x60, 0x76, 0x60, 0x01, 0x0C, 0x78, 0x76, 0x00, 0x05, 0x21, 0x0C, 0xFD, 0x10, 0x76, 0x00, 0x05, 0x21, 0x1F, 0xB3, 0x16], // 63 sen_pollutherm.hex
    &[0x68, 0x96, 0x96, 0x68, 0x08, 0x00, 0x72, 0x04, 0x11, 0x29, 0x00, 0x7A, 0x32, 0x29, 0x20, 0x0C, 0x28, 0x00, 0x00, 0x0C, 0x78, 0x20, 0x71, 0x04, 0x00, 0x06, 0xFD, 0x0C, 0xFC, 0x03, 0x6D, 0x00, 0x2D, 0x00, 0x0D, 0xFD, 0x0B, 0x06, 0x35, 0x33, 0x32, 0x44, 0x56, 0x52, 0x81, 0x30, 0xFD, 0x7C, 0x01, 0x81, 0x20, 0xFD, 0x7C, 0x00, 0x01, 0xFD, 0x7C, 0x00, 0x0F, 0x02, 0x78, 0x04, 0x00, 0x02, 0x7A, 0x04, 0x00, 0x32, 0x00, 0x1E, 0x09, 0x32, 0x08, 0x00, 0x00, 0x34, 0x10, 0x00, 0x00, 0x00, 0x00, 0x31, 0x18, 0x00, 0x34, 0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0x71, 0x18, 0x00, 0x74, 0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0xB1, 0x01, 0x18, 0x00, 0xB4, 0x01, 0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0xF1, 0x01, 0x18, 0x00, 0xF4, 0x01, 0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0xB1, 0x02, 0x18, 0x00, 0xB4, 0x02, 0x18, 0xFF, 0xFF, 0xFF, 0xFF, 0xF1, 0x02, 0x18, 0x00, 0x31, 0x28, 0x00, 0x34, 0x28, 0xFF, 0xFF, 0xFF, 0xFF, 0x71, 0x28, 0x00, 0x01, 0x01, 0x00, 0x01, 0x09, 0x00, 0x24, 0x16], // 64 siemens_rvd235.hex
    &[0x68, 0x59, 0x59, 0x68, 0x08, 0x00, 0x72, 0x82, 0x13, 0x02, 0x08, 0x65, 0x32, 0x99, 0x06, 0xEB, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x01, 0x01, 0x00, 0x00, 0x0B, 0x22, 0x52, 0x09, 0x02, 0x04, 0x6D, 0x38, 0x08, 0x6E, 0x19, 0x32, 0x6C, 0x00, 0x00, 0x0C, 0x78, 0x82, 0x13, 0x02, 0x08, 0x06, 0xFD, 0x0C, 0x0A, 0x00, 0x01, 0x00, 0xFA, 0x01, 0x0D, 0xFD, 0x0B, 0x05, 0x31, 0x32, 0x48, 0x46, 0x57, 0x01, 0xFD, 0x0E, 0x00, 0x0B, 0x3B, 0x00, 0x00, 0x00, 0x0F, 0x37, 0xFD, 0x17, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x02, 0x7A, 0x0D, 0x00, 0x02, 0x78, 0x0D, 0x00, 0x11, 0x16], // 65 siemens_water.hex
    &[0x68, 0x5E, 0x5E, 0x68, 0x08, 0x05, 0x72, 0x91, 0x64, 0x00, 0x08, 0x65, 0x32, 0x99, 0x06, 0xDA, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x00, 0x00, 0x00, 0x00, 0x0B, 0x22, 0x86, 0x40, 0x04, 0x04, 0x6D, 0x24, 0x0A, 0x61, 0x1C, 0x32, 0x6C, 0x00, 0x00, 0x0C, 0x78, 0x91, 0x64, 0x00, 0x08, 0x06, 0xFD, 0x0C, 0x0A, 0x00, 0x01, 0x00, 0xFA, 0x01, 0x0D, 0xFD, 0x0B, 0x05, 0x31, 0x32, 0x48, 0x46, 0x57, 0x01, 0xFD, 0x0E, 0x00, 0x4C, 0x13, 0x00, 0x00, 0x00, 0x00, 0x42, 0x6C, 0x5F, 0x1C, 0x0F, 0x37, 0xFD, 0x17, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x02, 0x7A, 0x25, 0x00, 0x02, 0x78, 0x25, 0x00, 0x82, 0x16], // 66 siemens_wfh21.hex
    &[0x68, 0x51, 0x51, 0x68, 0x08, 0x01, 0x72, 0x24, 0x06, 0x42, 0x08, 0xEE, 0x4D, 0x0D, 0x04, 0x2C, 0x30, 0x00, 0x00, 0x04, 0x0E, 0x00, 0x00, 0x00, 0x00, 0x04, 0x14, 0x00, 0x00, 0x00, 0x00, 0x05, 0x5B, 0x00, 0x00, 0x00, 0x00, 0x05, 0x5F, 0x00, 0x00, 0x00, 0x00, 0x05, 0x3E, 0x00, 0x00, 0x00, 0x00, 0x05, 0x2B, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x00, 0x0E, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x00, 0x14, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0xC4, 0x80, 0x40, 0x14, 0x00, 0x00, 0x00, 0x00, 0x1F, 0x71, 0x16], // 67 sontex_supercal_531_telegram1.hex
    &[0x68, 0x5C, 0x5C, 0x68, 0x08, 0x01, 0x72, 0x89, 0x60, 0x00, 0x01, 0xCD, 0x4E, 0x09, 0x0C, 0x94, 0x70, 0x00, 0x00, 0x04, 0x06, 0x6E, 0x6D, 0x00, 0x00, 0x04, 0x13, 0x45, 0xC6, 0x09, 0x00, 0x84, 0x40, 0x13, 0x45, 0xC6, 0x09, 0x00, 0x02, 0x5B, 0xF3, 0x00, 0x02, 0x5F, 0xF3, 0x00, 0x02, 0x62, 0x00, 0x00, 0x04, 0x22, 0xE2, 0x18, 0x00, 0x00, 0x04, 0x26, 0xDB, 0x18, 0x00, 0x00, 0x04, 0x3B, 0x00, 0x00, 0x00, 0x00, 0x04, 0x2C, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x0C, 0x15, 0xA8, 0x22, 0x84, 0x40, 0x6E, 0x00, 0x00, 0x00, 0x00, 0x84, 0x80, 0x40, 0x6E, 0x00, 0x00, 0x00, 0x00, 0x1F, 0xA7, 0x16], // 68 svm_f22_telegram1.hex
    &[0x68, 0x3F, 0x3F, 0x68, 0x08, 0x4E, 0x72, 0x82, 0x99, 0x51, 0x21, 0x68, 0x50, 0x26, 0x04, 0x85, 0x00, 0x00, 0x00, 0x0C, 0x05, 0x00, 0x00, 0x00, 0x00, 0x04, 0x6D, 0x32, 0x0D, 0x1D, 0x09, 0x4C, 0x05, 0x00, 0x00, 0x00, 0x00, 0x42, 0x6C, 0x1D, 0x05, 0x0B, 0x3A, 0x00, 0x00, 0x00, 0x0A, 0x5A, 0x34, 0x02, 0x0A, 0x5E, 0x24, 0x02, 0x0C, 0x2A, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x13, 0x64, 0x00, 0x00, 0x00, 0x1F, 0x09, 0x16], // 69 tch_telegramm1.hex
    &[0x68, 0x1B, 0x1B, 0x68, 0x08, 0x00, 0x72, 0x12, 0x34, 0x56, 0x78, 0xA3, 0x50, 0x10, 0x01, 0x01, 0x00, 0x00, 0x00, 0x01, 0x67, 0x09, 0x0A, 0x14, 0x60, 0x45, 0x92, 0x10, 0x14, 0x88, 0x13, 0x18, 0x16], // 70 tecson.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x08, 0x81, 0x16], // 71 application_busy.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x02, 0x7B, 0x16], // 72 buffer_too_long.hex
    &[0x68, 0x03, 0x03, 0x68, 0x08, 0x01, 0x70, 0x79, 0x16], // 73 error.hex
    &[0x68, 0x1C, 0x1C, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x60, 0x04, 0xC7, 0x16], // 74 premature_end_of_data1.hex
    &[0x68, 0x1E, 0x1E, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x60, 0x04, 0x37, 0x18, 0x16, 0x16], // 75 premature_end_of_data2.hex
    &[0x68, 0x1A, 0x1A, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x63, 0x16], // 76 premature_end_of_dif1.hex
    &[0x68, 0x1B, 0x1B, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x8B, 0xEE, 0x16], // 77 premature_end_of_dif2.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x04, 0x7D, 0x16], // 78 premature_end_of_record.hex
    &[0x68, 0x2E, 0x2E, 0x68, 0x08, 0x05, 0x72, 0x34, 0x08, 0x00, 0x54, 0x96, 0x15, 0x32, 0x00, 0xF2, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x1B, 0x00, 0x02, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xD4, 0x11, 0x22, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xC8, 0x11, 0x12, 0xFC, 0x13, 0x48, 0x52, 0x25, 0x74, 0xB4, 0x16, 0x5B, 0x16], // 79 premature_end_of_var_vif1.hex
    &[0x68, 0x1B, 0x1B, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x60, 0xC3, 0x16], // 80 premature_end_of_vif1.hex
    &[0x68, 0x2E, 0x2E, 0x68, 0x08, 0x05, 0x72, 0x34, 0x08, 0x00, 0x54, 0x96, 0x15, 0x32, 0x00, 0xF2, 0x00, 0x00, 0x00, 0x01, 0xFD, 0x1B, 0x00, 0x02, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xD4, 0x11, 0x22, 0xFC, 0x03, 0x48, 0x52, 0x25, 0x74, 0xC8, 0x11, 0x12, 0xFC, 0xF3, 0x48, 0x52, 0x25, 0x74, 0xB4, 0x16, 0x3B, 0x16], // 81 too_long_var_vif.hex
    &[0x68, 0x29, 0x29, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x8B, 0x60, 0x04, 0x37, 0x18, 0x02, 0x86, 0x16], // 82 too_many_dife.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x05, 0x7E, 0x16], // 83 too_many_difes.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x09, 0x82, 0x16], // 84 too_many_readouts.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x03, 0x7C, 0x16], // 85 too_many_records.hex
    &[0x68, 0x2A, 0x2A, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0x40, 0x01, 0x07, 0x55, 0x00, 0x00, 0x00, 0x03, 0x13, 0x15, 0x31, 0x00, 0xDA, 0x02, 0x3B, 0x13, 0x01, 0x8B, 0x60, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x84, 0x04, 0x37, 0x18, 0x02, 0xC4, 0x16], // 86 too_many_vife.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x06, 0x7F, 0x16], // 87 too_many_vifes.hex
    &[0x68, 0x08, 0x08, 0x68, 0x08, 0x02, 0x72, 0x78, 0x56, 0x34, 0x12, 0x24, 0xB4, 0x16], // 88 too_short_header.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x01, 0x7A, 0x16], // 89 unimplemented_ci.hex
    &[0x68, 0x04, 0x04, 0x68, 0x08, 0x01, 0x70, 0x00, 0x79, 0x16], // 90 unspecified_error.hex
    &[0x68, 0x00, 0x00, 0x68, 0x08, 0x16], // 91 invalid_length.hex
    &[0x68, 0x12, 0x12, 0x68, 0x08, 0x01, 0x73, 0x93, 0x92, 0x91, 0x90, 0x10, 0x00, 0x05, 0x69, 0x31, 0x65, 0x00, 0x00, 0x69, 0x00, 0x00, 0x3F, 0x16], // 92 invalid_length2.hex
    &[0x0D, 0x04, 0x04, 0x68, 0x53, 0xFE, 0x50, 0x10, 0xB1, 0x16], // 93 manual_frame1.hex
    &[0x68, 0x06, 0x06, 0x68, 0x53, 0xFE, 0x51, 0x01, 0x7A, 0x08, 0x25, 0x16], // 94 manual_frame4.hex
    &[0x68, 0x0D, 0x0D, 0x68, 0x53, 0xFE, 0x51, 0x07, 0x79, 0x04, 0x03, 0x02, 0x01, 0x24, 0x40, 0x01, 0x04, 0x95, 0x16], // 95 manual_frame5.hex
    &[0x68, 0x0F, 0x0F, 0x68, 0x53, 0xFE, 0x51, 0x0C, 0x79, 0x78, 0x56, 0x34, 0x12, 0x0C, 0x06, 0x07, 0x01, 0x00, 0x00, 0x55, 0x16], // 96 manual_frame6.hex
    &[0x68, 0xDE, 0xDE, 0x68, 0x08, 0x01, 0x72, 0x89, 0x60, 0x00, 0x01, 0xCD, 0x4E, 0x09, 0x04, 0x18, 0x70, 0x00, 0x00, 0x1F, 0x45, 0x00, 0x3C, 0x01, 0x7F, 0xB0, 0x09, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0xC5, 0x00, 0x84, 0x11, 0x98, 0xA1, 0x01, 0x00, 0xC9, 0x18, 0x00, 0x00, 0x00, 0x00, 0x00, 0x01, 0x58, 0x04, 0x87, 0x24, 0x81, 0x01, 0x5B, 0x00, 0x00, 0x48, 0x18, 0x00, 0x63, 0x60, 0x7D, 0x7F, 0x3E, 0x5F, 0x60, 0x01, 0x00, 0x0A, 0x01, 0x02, 0x99, 0x00, 0x00, 0x0E, 0x50, 0xC3, 0x00, 0x00, 0x7F, 0x7F, 0x80, 0x01, 0x0A, 0x00, 0x00, 0xFF, 0x02, 0x00, 0x02, 0x18, 0x00, 0x00, 0x00, 0x00, 0x28, 0x10, 0x36, 0x20, 0x06, 0x02, 0xBE, 0x23, 0xBF, 0x23, 0x0A, 0x0B, 0x10, 0x28, 0x10, 0x36, 0x20, 0x06, 0x02, 0xBE, 0x23, 0xBF, 0x23, 0x0A, 0x0B, 0x10, 0x28, 0x10, 0x36, 0x00, 0x00, 0x00, 0x00, 0x00, 0x93, 0x92, 0xC9, 0x00, 0x10, 0x00, 0x00, 0x02, 0x89, 0x60, 0x00, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x08, 0x06, 0x08, 0x13, 0x08, 0x5A, 0x08, 0x5E, 0x08, 0x62, 0x08, 0x3D, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10, 0x01, 0x00, 0x0D, 0x01, 0x45, 0x00, 0x46, 0x08, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x0C, 0x0A, 0x02, 0x25, 0x6E, 0x02, 0x6E, 0x6D, 0x00, 0x00, 0xF6, 0x16], // 97 svm_f22_telegram2.hex
];
