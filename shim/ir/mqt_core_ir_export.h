#pragma once
#define MQT_CORE_IR_EXPORT
#define MQT_CORE_IR_NO_EXPORT
#define MQT_CORE_IR_DEPRECATED
#define MQT_CORE_IR_DEPRECATED_EXPORT
