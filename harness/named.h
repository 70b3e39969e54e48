// The numbers CIP and EtherNet/IP give to the names the library offers, written down independently of its headers.
#pragma once
#include "prop.h"
#include "cip/Services.h"
#include "cip/GeneralStatusCodes.h"
#include "eip/EncapsPacket.h"
#include "eip/CommonPacketItem.h"

namespace named {
template <class E> struct Name { const char* name; uint64_t number; E value; };

const std::vector<Name<eipScanner::cip::ServiceCodes>> kServices = {
    {"NONE", 0x00, eipScanner::cip::ServiceCodes::NONE},
    {"GET_ATTRIBUTE_ALL", 0x01, eipScanner::cip::ServiceCodes::GET_ATTRIBUTE_ALL},
    {"SET_ATTRIBUTE_ALL", 0x02, eipScanner::cip::ServiceCodes::SET_ATTRIBUTE_ALL},
    {"GET_ATTRIBUTE_LIST", 0x03, eipScanner::cip::ServiceCodes::GET_ATTRIBUTE_LIST},
    {"SET_ATTRIBUTE_LIST", 0x04, eipScanner::cip::ServiceCodes::SET_ATTRIBUTE_LIST},
    {"RESET", 0x05, eipScanner::cip::ServiceCodes::RESET},
    {"START", 0x06, eipScanner::cip::ServiceCodes::START},
    {"STOP", 0x07, eipScanner::cip::ServiceCodes::STOP},
    {"CREATE_OBJECT_INSTANCE", 0x08, eipScanner::cip::ServiceCodes::CREATE_OBJECT_INSTANCE},
    {"DELETE_OBJECT_INSTANCE", 0x09, eipScanner::cip::ServiceCodes::DELETE_OBJECT_INSTANCE},
    {"MULTIPLE_SERVICE_PACKET", 0x0A, eipScanner::cip::ServiceCodes::MULTIPLE_SERVICE_PACKET},
    {"APPLY_ATTRIBUTES", 0x0D, eipScanner::cip::ServiceCodes::APPLY_ATTRIBUTES},
    {"GET_ATTRIBUTE_SINGLE", 0x0E, eipScanner::cip::ServiceCodes::GET_ATTRIBUTE_SINGLE},
    {"SET_ATTRIBUTE_SINGLE", 0x10, eipScanner::cip::ServiceCodes::SET_ATTRIBUTE_SINGLE},
    {"FIND_NEXT_OBJECT_INSTANCE", 0x11, eipScanner::cip::ServiceCodes::FIND_NEXT_OBJECT_INSTANCE},
    {"ERROR_RESPONSE", 0x14, eipScanner::cip::ServiceCodes::ERROR_RESPONSE},
    {"RESTORE", 0x15, eipScanner::cip::ServiceCodes::RESTORE},
    {"SAVE", 0x16, eipScanner::cip::ServiceCodes::SAVE},
    {"GET_MEMBER", 0x18, eipScanner::cip::ServiceCodes::GET_MEMBER},
    {"NO_OPERATION", 0x17, eipScanner::cip::ServiceCodes::NO_OPERATION},
    {"SET_MEMBER", 0x19, eipScanner::cip::ServiceCodes::SET_MEMBER},
    {"INSERT_MEMBER", 0x1A, eipScanner::cip::ServiceCodes::INSERT_MEMBER},
    {"REMOVE_MEMBER", 0x1B, eipScanner::cip::ServiceCodes::REMOVE_MEMBER},
    {"GROUP_SYNC", 0x1C, eipScanner::cip::ServiceCodes::GROUP_SYNC},
};
const std::vector<Name<eipScanner::cip::GeneralStatusCodes>> kStatuses = {
    {"SUCCESS", 0x00, eipScanner::cip::GeneralStatusCodes::SUCCESS},
    {"CONNECTION_FAILURE", 0x01, eipScanner::cip::GeneralStatusCodes::CONNECTION_FAILURE},
    {"RESOURCE_UNAVAILABLE", 0x02, eipScanner::cip::GeneralStatusCodes::RESOURCE_UNAVAILABLE},
    {"INVALID_PARAMETER_VALUE", 0x03, eipScanner::cip::GeneralStatusCodes::INVALID_PARAMETER_VALUE},
    {"PATH_SEGMENT_ERROR", 0x04, eipScanner::cip::GeneralStatusCodes::PATH_SEGMENT_ERROR},
    {"PATH_DESTINATION_UNKNOWN", 0x05, eipScanner::cip::GeneralStatusCodes::PATH_DESTINATION_UNKNOWN},
    {"PARTIAL_TRANSFER", 0x06, eipScanner::cip::GeneralStatusCodes::PARTIAL_TRANSFER},
    {"CONNECTION_LOST", 0x07, eipScanner::cip::GeneralStatusCodes::CONNECTION_LOST},
    {"SERVICE_NOT_SUPPORTED", 0x08, eipScanner::cip::GeneralStatusCodes::SERVICE_NOT_SUPPORTED},
    {"INVALID_ATTRIBUTE_VALUE", 0x09, eipScanner::cip::GeneralStatusCodes::INVALID_ATTRIBUTE_VALUE},
    {"ATTRIBUTE_LIST_ERROR", 0x0A, eipScanner::cip::GeneralStatusCodes::ATTRIBUTE_LIST_ERROR},
    {"ALREADY_IN_REQUESTED_MODE_OR_STATE", 0x0B, eipScanner::cip::GeneralStatusCodes::ALREADY_IN_REQUESTED_MODE_OR_STATE},
    {"OBJECT_STATE_CONFLICT", 0x0C, eipScanner::cip::GeneralStatusCodes::OBJECT_STATE_CONFLICT},
    {"OBJECT_ALREADY_EXISTS", 0x0D, eipScanner::cip::GeneralStatusCodes::OBJECT_ALREADY_EXISTS},
    {"ATTRIBUTE_NOT_SETTABLE", 0x0E, eipScanner::cip::GeneralStatusCodes::ATTRIBUTE_NOT_SETTABLE},
    {"PRIVILEGE_VIOLATION", 0x0F, eipScanner::cip::GeneralStatusCodes::PRIVILEGE_VIOLATION},
    {"DEVICE_STATE_CONFLICT", 0x10, eipScanner::cip::GeneralStatusCodes::DEVICE_STATE_CONFLICT},
    {"REPLY_DATA_TOO_LARGE", 0x11, eipScanner::cip::GeneralStatusCodes::REPLY_DATA_TOO_LARGE},
    {"FRAGMENTATION_OF_PRIMITIVE_VALUE", 0x12, eipScanner::cip::GeneralStatusCodes::FRAGMENTATION_OF_PRIMITIVE_VALUE},
    {"NOT_ENOUGH_DATA", 0x13, eipScanner::cip::GeneralStatusCodes::NOT_ENOUGH_DATA},
    {"ATTRIBUTE_NOT_SUPPORTED", 0x14, eipScanner::cip::GeneralStatusCodes::ATTRIBUTE_NOT_SUPPORTED},
    {"TOO_MUCH_DATA", 0x15, eipScanner::cip::GeneralStatusCodes::TOO_MUCH_DATA},
    {"OBJECT_DOES_NOT_EXIST", 0x16, eipScanner::cip::GeneralStatusCodes::OBJECT_DOES_NOT_EXIST},
    {"SVCFRAG_SEQNC_NOT_IN_PROGRESS", 0x17, eipScanner::cip::GeneralStatusCodes::SVCFRAG_SEQNC_NOT_IN_PROGRESS},
    {"NO_STORED_ATTRIBUTE_DATA", 0x18, eipScanner::cip::GeneralStatusCodes::NO_STORED_ATTRIBUTE_DATA},
    {"STORE_OPERATION_FAILURE", 0x19, eipScanner::cip::GeneralStatusCodes::STORE_OPERATION_FAILURE},
    {"ROUTING_FAILURE_REQUEST_SIZE", 0x1A, eipScanner::cip::GeneralStatusCodes::ROUTING_FAILURE_REQUEST_SIZE},
    {"ROUTING_FAILURE_RESPONSE_SIZE", 0x1B, eipScanner::cip::GeneralStatusCodes::ROUTING_FAILURE_RESPONSE_SIZE},
    {"MISSING_ATTRIBUTE_LIST_ENTRY", 0x1C, eipScanner::cip::GeneralStatusCodes::MISSING_ATTRIBUTE_LIST_ENTRY},
    {"INVALID_ATTRIBUTE_LIST", 0x1D, eipScanner::cip::GeneralStatusCodes::INVALID_ATTRIBUTE_LIST},
    {"EMBEDDED_SERVICE_ERROR", 0x1E, eipScanner::cip::GeneralStatusCodes::EMBEDDED_SERVICE_ERROR},
    {"VENDOR_SPECIFIC", 0x1F, eipScanner::cip::GeneralStatusCodes::VENDOR_SPECIFIC},
    {"INVALID_PARAMETER", 0x20, eipScanner::cip::GeneralStatusCodes::INVALID_PARAMETER},
    {"WRITE_ONCE_WRITTEN", 0x21, eipScanner::cip::GeneralStatusCodes::WRITE_ONCE_WRITTEN},
    {"INVALID_REPLY_RECEIVED", 0x22, eipScanner::cip::GeneralStatusCodes::INVALID_REPLY_RECEIVED},
    {"KEY_FAILURE_IN_PATH", 0x25, eipScanner::cip::GeneralStatusCodes::KEY_FAILURE_IN_PATH},
    {"PATH_SIZE_INVALID", 0x26, eipScanner::cip::GeneralStatusCodes::PATH_SIZE_INVALID},
    {"UNEXPECTED_ATTRIBUTE", 0x27, eipScanner::cip::GeneralStatusCodes::UNEXPECTED_ATTRIBUTE},
    {"INVALID_MEMBER_ID", 0x28, eipScanner::cip::GeneralStatusCodes::INVALID_MEMBER_ID},
    {"MEMBER_NOT_SETTABLE", 0x29, eipScanner::cip::GeneralStatusCodes::MEMBER_NOT_SETTABLE},
};
const std::vector<Name<eipScanner::eip::EncapsCommands>> kCommands = {
    {"NOP", 0x00, eipScanner::eip::EncapsCommands::NOP},
    {"LIST_SERVICES", 0x04, eipScanner::eip::EncapsCommands::LIST_SERVICES},
    {"LIST_IDENTITY", 0x63, eipScanner::eip::EncapsCommands::LIST_IDENTITY},
    {"LIST_INTERFACES", 0x64, eipScanner::eip::EncapsCommands::LIST_INTERFACES},
    {"REGISTER_SESSION", 0x65, eipScanner::eip::EncapsCommands::REGISTER_SESSION},
    {"UN_REGISTER_SESSION", 0x66, eipScanner::eip::EncapsCommands::UN_REGISTER_SESSION},
    {"SEND_RR_DATA", 0x6F, eipScanner::eip::EncapsCommands::SEND_RR_DATA},
    {"SEND_UNIT_DATA", 0x70, eipScanner::eip::EncapsCommands::SEND_UNIT_DATA},
    {"INDICATE_STATUS", 0x72, eipScanner::eip::EncapsCommands::INDICATE_STATUS},
    {"CANCEL", 0x73, eipScanner::eip::EncapsCommands::CANCEL},
};
const std::vector<Name<eipScanner::eip::EncapsStatusCodes>> kEncapsStatuses = {
    {"SUCCESS", 0x00, eipScanner::eip::EncapsStatusCodes::SUCCESS},
    {"UNSUPPORTED_COMMAND", 0x01, eipScanner::eip::EncapsStatusCodes::UNSUPPORTED_COMMAND},
    {"INSUFFICIENT_MEMORY", 0x02, eipScanner::eip::EncapsStatusCodes::INSUFFICIENT_MEMORY},
    {"INVALID_FORMAT_OR_DATA", 0x03, eipScanner::eip::EncapsStatusCodes::INVALID_FORMAT_OR_DATA},
    {"INVALID_SESSION_HANDLE", 0x64, eipScanner::eip::EncapsStatusCodes::INVALID_SESSION_HANDLE},
    {"UNSUPPORTED_PROTOCOL_VERSION", 0x69, eipScanner::eip::EncapsStatusCodes::UNSUPPORTED_PROTOCOL_VERSION},
};
const std::vector<Name<eipScanner::eip::CommonPacketItemIds>> kItems = {
    {"NULL_ADDR", 0x00, eipScanner::eip::CommonPacketItemIds::NULL_ADDR},
    {"LIST_IDENTITY", 0x0C, eipScanner::eip::CommonPacketItemIds::LIST_IDENTITY},
    {"CONNECTION_ADDRESS_ITEM", 0xA1, eipScanner::eip::CommonPacketItemIds::CONNECTION_ADDRESS_ITEM},
    {"CONNECTED_TRANSPORT_PACKET", 0xB1, eipScanner::eip::CommonPacketItemIds::CONNECTED_TRANSPORT_PACKET},
    {"UNCONNECTED_MESSAGE", 0xB2, eipScanner::eip::CommonPacketItemIds::UNCONNECTED_MESSAGE},
    {"O2T_SOCKADDR_INFO", 0x8000, eipScanner::eip::CommonPacketItemIds::O2T_SOCKADDR_INFO},
    {"T2O_SOCKADDR_INFO", 0x8001, eipScanner::eip::CommonPacketItemIds::T2O_SOCKADDR_INFO},
    {"SEQUENCED_ADDRESS_ITEM", 0x8002, eipScanner::eip::CommonPacketItemIds::SEQUENCED_ADDRESS_ITEM},
};
}  // namespace named
