"""Reference tables of status codes (IEEE 802.15.4 and Zigbee specification)."""

APSStatus = {
    0x00: "APS_SUCCESS",
    0xA0: "APS_ASDU_TOO_LONG",
    0xA1: "APS_DEFRAG_DEFERRED",
    0xA2: "APS_DEFRAG_UNSUPPORTED",
    0xA3: "APS_ILLEGAL_REQUEST",
    0xA4: "APS_INVALID_BINDING",
    0xA5: "APS_INVALID_GROUP",
    0xA6: "APS_INVALID_PARAMETER",
    0xA7: "APS_NO_ACK",
    0xA8: "APS_NO_BOUND_DEVICE",
    0xA9: "APS_NO_SHORT_ADDRESS",
    0xAA: "APS_NOT_SUPPORTED",
    0xAB: "APS_SECURED_LINK_KEY",
    0xAC: "APS_SECURED_NWK_KEY",
    0xAD: "APS_SECURITY_FAIL",
    0xAE: "APS_TABLE_FULL",
    0xAF: "APS_UNSECURED",
    0xB0: "APS_UNSUPPORTED_ATTRIBUTE",
}

NWKStatus = {
    0x00: "NWK_SUCCESS",
    0xC1: "NWK_INVALID_PARAMETER",
    0xC2: "NWK_INVALID_REQUEST",
    0xC3: "NWK_NOT_PERMITTED",
    0xC4: "NWK_STARTUP_FAILURE",
    0xC5: "NWK_ALREADY_PRESENT",
    0xC6: "NWK_SYNC_FAILURE",
    0xC7: "NWK_NEIGHBOR_TABLE_FULL",
    0xC8: "NWK_UNKNOWN_DEVICE",
    0xC9: "NWK_UNSUPPORTED_ATTRIBUTE",
    0xCA: "NWK_NO_NETWORKS",
    0xCB: "NWK_RESERVED_0xCB",
    0xCC: "NWK_NWK_MAX_FRM_COUNTER",
    0xCD: "NWK_NO_KEY",
    0xCE: "NWK_BAD_CCM_OUTPUT",
    0xCF: "NWK_RESERVED_0xCF",
    0xD0: "NWK_ROUTE_DISCOVERY_FAILED",
    0xD1: "NWK_ROUTE_ERROR",
    0xD2: "NWK_BT_TABLE_FULL",
    0xD3: "NWK_FRAME_NOT_BUFFERED",
}

MACStatus = {
    0x00: "MAC_SUCCESS",
    0x01: "MAC_PAN_AT_CAPACITY",
    0x02: "MAC_PAN_ACCESS_DENIED",
    0xDB: "MAC_COUNTER_ERROR",
    0xDC: "MAC_IMPROPER_KEY_TYPE",
    0xDD: "MAC_IMPROPER_SECURITY_LEVEL",
    0xDE: "MAC_UNSUPPORTED_LEGACY",
    0xDF: "MAC_UNSUPPORTED_SECURITY",
    0xE0: "MAC_BEACON_LOSS",
    0xE1: "MAC_CHANNEL_ACCESS_FAILURE",
    0xE2: "MAC_DENIED",
    0xE3: "MAC_DISABLE_TRX_FAILURE",
    0xE4: "MAC_SECURITY_ERROR",
    0xE5: "MAC_FRAME_TOO_LONG",
    0xE6: "MAC_INVALID_GTS",
    0xE7: "MAC_INVALID_HANDLE",
    0xE8: "MAC_INVALID_PARAMETER",
    0xE9: "MAC_NO_ACK",
    0xEA: "MAC_NO_BEACON",
    0xEB: "MAC_NO_DATA",
    0xEC: "MAC_NO_SHORT_ADDRESS",
    0xED: "MAC_OUT_OF_CAP",
    0xEE: "MAC_PAN_ID_CONFLICT",
    0xEF: "MAC_REALIGNMENT",
    0xF0: "MAC_TRANSACTION_EXPIRED",
    0xF1: "MAC_TRANSACTION_OVERFLOW",
    0xF2: "MAC_TX_ACTIVE",
    0xF3: "MAC_UNAVAILABLE_KEY",
    0xF4: "MAC_UNSUPPORTED_ATTRIBUTE",
    0xF5: "MAC_INVALID_ADDRESS",
    0xF6: "MAC_ON_TIME_TOO_LONG",
    0xF7: "MAC_PAST_TIME",
    0xF8: "MAC_TRACKING_OFF",
    0xF9: "MAC_INVALID_INDEX",
    0xFA: "MAC_LIMIT_REACHED",
    0xFB: "MAC_READ_ONLY",
    0xFC: "MAC_SCAN_IN_PROGRESS",
    0xFD: "MAC_SUPERFRAME_OVERLAP",
}

BroadcastAddress = {
    0xFFFF: "ALL_DEVICES",
    0xFFFE: "RESERVED_FFFE",
    0xFFFD: "RX_ON_WHEN_IDLE",
    0xFFFC: "ALL_ROUTERS_AND_COORDINATOR",
    0xFFFB: "LOW_POWER_ROUTER",
    0xFFFA: "RESERVED_FFFA",
    0xFFF9: "RESERVED_FFF9",
    0xFFF8: "RESERVED_FFF8",
}

AddrMode = {
    0x01: "Group",
    0x02: "NWK",
    0x03: "IEEE",
    0x0F: "Broadcast",
}
