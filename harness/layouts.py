"""Wire layout of the messages, written down independently of the code.

name:kind -- uN unsigned N bits (big endian), f one bit, rN reserved bits, ip 16 bytes, dsk 16 bytes,
raw the rest of the frame.  The first field starts in the most significant bit of the byte after the command.
"""

LAYOUTS = {
    # BASIC, SWITCH_BINARY, INDICATOR, BATTERY
    0x2001: ("Basic.Set", "value:u8"),
    0x2002: ("Basic.Get", ""),
    0x2003: ("Basic.Report", "value:u8"),
    0x2501: ("SwitchBinary.Set", "value:u8"),
    0x2502: ("SwitchBinary.Get", ""),
    0x2503: ("SwitchBinary.Report", "value:u8"),
    0x8701: ("Indicator.Set", "value:u8"),
    0x8702: ("Indicator.Get", ""),
    0x8703: ("Indicator.Report", "value:u8"),
    0x8002: ("Battery.Get", ""),
    0x8003: ("Battery.Report", "batteryLevel:u8"),
    0x2201: ("ApplicationStatus.ApplicationBusy", "status:u8 waitTime:u8"),
    # ZIP
    0x2303: ("Zip.ZipKeepAlive", "ackRequest:f ackResponse:f _:r6"),
    # SENSOR_MULTILEVEL, METER
    0x3101: ("SensorMultilevel.SupportedGetSensor", ""),
    0x3103: ("SensorMultilevel.SupportedGetScale", "sensorType:u8"),
    0x3104: ("SensorMultilevel.Get", "sensorType:u8 -:r3 scale:u2 -:r3"),
    0x3106: ("SensorMultilevel.SupportedScaleReport", "sensorType:u8 -:r4 scaleBitMask:u4"),
    0x3201: ("Meter.Get", "rateType:u2 scale:u3 -:r3 scale2:u8"),
    0x3203: ("Meter.SupportedGet", ""),
    0x3204: ("Meter.SupportedReport", "meterReset:f rateType:u2 meterType:u5 moreScaleTypes:f scaleSupported:u7 "
                                      "nbrScaleSupportedBytesToFollow:u8 scaleSupportedByteN:raw"),
    0x3205: ("Meter.Reset", ""),
    # NETWORK_MANAGEMENT_INCLUSION
    0x3401: ("NetworkManagementInclusion.NodeAdd", "seqNo:u8 -:r8 mode:u8 txOptions:u8"),
    0x3403: ("NetworkManagementInclusion.NodeRemove", "seqNo:u8 -:r8 mode:u8"),
    0x3404: ("NetworkManagementInclusion.NodeRemoveStatus", "seqNo:u8 status:u8 nodeID:u8"),
    0x3407: ("NetworkManagementInclusion.FailedNodeRemove", "seqNo:u8 nodeID:u8"),
    0x3408: ("NetworkManagementInclusion.FailedNodeRemoveStatus", "seqNo:u8 status:u8 nodeID:u8"),
    0x3409: ("NetworkManagementInclusion.FailedNodeReplace", "seqNo:u8 nodeID:u8 txOptions:u8 mode:u8"),
    0x340A: ("NetworkManagementInclusion.FailedNodeReplaceStatus", "seqNo:u8 status:u8 nodeID:u8"),
    0x340B: ("NetworkManagementInclusion.NodeNeightborUpdateRequest", "seqNo:u8 nodeID:u8"),
    0x340C: ("NetworkManagementInclusion.NodeNeightborUpdateStatus", "seqNo:u8 status:u8"),
    0x340D: ("NetworkManagementInclusion.ReturnRouteAssign", "seqNo:u8 sourceNodeID:u8 destinationNodeID:u8"),
    0x340E: ("NetworkManagementInclusion.ReturnRouteAssignComplete", "seqNo:u8 status:u8"),
    0x340F: ("NetworkManagementInclusion.ReturnRouteDelete", "seqNo:u8 nodeID:u8"),
    0x3410: ("NetworkManagementInclusion.ReturnRouteDeleteComplete", "seqNo:u8 status:u8"),
    0x3411: ("NetworkManagementInclusion.NodeAddKeysReport", "seqNo:u8 -:r7 requestCSA:f requestedKeys:u8"),
    0x3412: ("NetworkManagementInclusion.NodeAddKeysSet", "seqNo:u8 -:r6 grantCSA:f accept:f grantedKeys:u8"),
    0x3413: ("NetworkManagementInclusion.NodeAddDSKReport", "seqNo:u8 -:r4 inputDSKLength:u4 dsk:dsk"),
    0x3414: ("NetworkManagementInclusion.NodeAddDSKSet", "seqNo:u8 accept:f -:r3 inputDSKLength:u4 dsk:dsk"),
    # NETWORK_MANAGEMENT_PROXY
    0x5201: ("NetworkManagementProxy.NodeListGet", "seqNo:u8"),
    0x5203: ("NetworkManagementProxy.NodeInfoCachedGet", "seqNo:u8 -:r4 maxAge:u4 nodeID:u8"),
    0x5204: ("NetworkManagementProxy.NodeInfoCachedReport",
             "seqNo:u8 status:u4 age:u4 listening:f zwaveProtocolSpecific:r7 optFunc:f zwaveProtocolSpecific:r7 "
             "-:r8 basicDeviceClass:u8 genericDeviceClass:u8 specificDeviceClass:u8 commandClass:raw"),
    0x5205: ("NetworkManagementProxy.MultiChannelEndPointGet", "seqNo:u8 nodeID:u8"),
    0x5206: ("NetworkManagementProxy.MultiChannelEndPointReport",
             "seqNo:u8 nodeID:u8 -:r8 -:r1 individualEndPoints:u7 -:r1 aggregatedEndPoints:u7"),
    0x5207: ("NetworkManagementProxy.MultiChannelCapabilityGet", "seqNo:u8 nodeID:u8 -:r1 endPoint:u7"),
    0x5208: ("NetworkManagementProxy.MultiChannelCapabilityReport",
             "seqNo:u8 nodeID:u8 commandClassLength:u8 -:r1 endPoint:u7 genericDeviceClass:u8 "
             "specificDeviceClass:u8 commandClass:raw"),
    0x520B: ("NetworkManagementProxy.FailedNodeListGet", "seqNo:u8"),
    # ZIP_ND
    0x5801: ("ZipND.ZipNodeAdvertisement", "-:r5 local:f validity:u2 nodeId:u8 ipv6:ip homeId:u32"),
    0x5804: ("ZipND.ZipInvNodeSolicitation", "-:r4 local:f -:r3 nodeId:u8"),
    # ASSOCIATION_GRP_INFO
    0x5901: ("AssociationGrpInfo.GroupNameGet", "groupingIdentifier:u8"),
    0x5903: ("AssociationGrpInfo.GroupInfoGet", "refreshCache:f listMode:f -:r6 groupingIdentifier:u8"),
    0x5905: ("AssociationGrpInfo.GroupCommandListGet", "allowCache:f -:r7 groupingIdentifier:u8"),
    # ZWAVEPLUS_INFO
    0x5E01: ("ZwavePlusInfo.Get", ""),
    0x5E02: ("ZwavePlusInfo.Report",
             "zwavePlusVersion:u8 roleType:u8 nodeType:u8 installerIconType:u16 userIconType:u16"),
    # ZIP_GATEWAY
    0x5F01: ("ZipGateway.GatewayModeSet", "mode:u8"),
    0x5F02: ("ZipGateway.GatewayModeGet", ""),
    0x5F03: ("ZipGateway.GatewayModeReport", "mode:u8"),
    0x5F04: ("ZipGateway.GatewayPeerSet", "peerProfile:u8 ipv6:ip port:u16 -:r2 peerNameLength:u6"),
    0x5F08: ("ZipGateway.UnsolicitedDestinationSet", "unsolicitedIPv6Destination:ip port:u16"),
    0x5F0B: ("ZipGateway.ApplicationNodeInfoSet", "commandClasses:raw"),
    # MAILBOX
    0x6901: ("Mailbox.ConfigurationGet", ""),
    0x6902: ("Mailbox.ConfigurationSet", "-:r5 mode:u3 forwardingDestinationIPv6Address:ip udpPortNumber:u16"),
    0x6903: ("Mailbox.ConfigurationReport",
             "-:r3 supportedModes:u2 mode:u3 mailboxCapacity:u16 forwardingDestinationIPv6Address:ip "
             "udpPortNumber:u16"),
    0x6904: ("Mailbox.Queue", "-:r4 last:f operation:u3 queueHandle:u8 mailboxEntry:raw"),
    0x6905: ("Mailbox.WakeupNotification", "queueHandle:u8"),
    0x6906: ("Mailbox.NodeFailing", "queueHandle:u8"),
    0x6907: ("Mailbox.QueueFlush", "queueHandle:u8"),
    # SUPERVISION
    0x6C02: ("Supervision.Report", "moreStatusUpdates:f wakeUpRequest:f sessionID:u6 status:u8 duration:u8"),
    # CONFIGURATION
    0x7005: ("Configuration.Get", "parameterNumber:u8"),
    0x7008: ("Configuration.BulkGet", "parameterOffset:u16 numberOfParameters:u8"),
    0x7009: ("Configuration.BulkReport", "parameterOffset:u16 numberOfParameters:u8 reportsToFollow:u8 default:f "
                                         "handshake:f -:r3 size:u3 parameter:raw"),
    # MANUFACTURER_SPECIFIC, VERSION
    0x7204: ("ManufacturerSpecific.Get", ""),
    0x7205: ("ManufacturerSpecific.Report", "manufacturerID:u16 productTypeID:u16 productID:u16"),
    0x8611: ("Version.VersionGet", ""),
    0x8612: ("Version.VersionReport", "zwaveLibraryType:u8 zwaveProtocolVersion:u8 zwaveProtocolSubVersion:u8 "
                                      "applicationVersion:u8 applicationSubVersion:u8"),
    0x8613: ("Version.VersionCommandClassGet", "requestedCommandClass:u8"),
    0x8614: ("Version.VersionCommandClassReport", "requestedCommandClass:u8 commandClassVersion:u8"),
    # NODE_PROVISIONING
    0x7803: ("NodeProvisioning.ListIterationGet", "seqNo:u8 remainingCounter:u8"),
    # ASSOCIATION
    0x8502: ("Association.Get", "groupingIdentifier:u8"),
    0x8505: ("Association.GroupingsGet", ""),
    0x8506: ("Association.GroupingsReport", "supportedGroupings:u8"),
    0x8E02: ("MultiChannelAssociation.MultiChannelGet", "groupingIdentifier:u8"),
}


def fields_of(hid):
    return [tuple(f.rsplit(":", 1)) for f in LAYOUTS[hid][1].split()]


def class_of(env, hid):
    modname, clsname = LAYOUTS[hid][0].split(".")
    return getattr(env.mod("pyzwave.commandclass." + modname), clsname)


def bit_size(kind):
    if kind == "f":
        return 1
    if kind in ("ip", "dsk"):
        return 128
    return int(kind[1:])


def symbolic_fields(env, hid, reserved, rawmax):
    """[(name, kind, value)]; reserved: a symbolic value (True) or zero"""
    out = []
    for i, (name, kind) in enumerate(fields_of(hid)):
        if kind == "raw":
            value = env.bytes(name, env.size(name + ".len", 0, rawmax))
        elif kind in ("ip", "dsk"):
            value = env.bytes(name, 16)
        elif kind == "f":
            value = env.bits(name, 1)
        elif kind[0] == "r":
            value = env.bits("%s%d" % (name, i), bit_size(kind)) if reserved else 0
        else:
            value = env.bits(name, bit_size(kind))
        out.append((name, kind, value))
    return out


def frame_bytes(hid, fields):
    """list of byte values of the frame"""
    out = [hid >> 8, hid & 0xFF]
    acc, bits = 0, 0
    for _name, kind, value in fields:
        if kind in ("raw", "ip", "dsk"):
            assert bits == 0
            out += [value[i] for i in range(len(value))]
            continue
        size = bit_size(kind)
        if bits == 0 and size % 8 == 0:
            out += [(value >> (8 * s)) & 0xFF for s in reversed(range(size // 8))]
            continue
        acc = acc * (1 << size) + value
        bits += size
        assert bits <= 8
        if bits == 8:
            out.append(acc)
            acc, bits = 0, 0
    assert bits == 0
    return out


def to_frame(env, items):
    return b"".join(_byte(env, i) for i in items) if env.symbolic else bytes(items)


def _byte(env, i):
    return i.to_bytes(1, "big")


def kwargs_for(env, fields):
    out = {}
    for name, kind, value in fields:
        if kind[0] == "r" and kind != "raw":
            continue
        out[name] = value
    return out


def dsk_text(env, value):
    """the printed form of a 16 bytes key"""
    return "-".join("{:05d}".format((value[i] << 8) | value[i + 1]) for i in range(0, 16, 2))
