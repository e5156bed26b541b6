#pragma once
#define MQT_CORE_DS_EXPORT
#define MQT_CORE_DS_NO_EXPORT
#define MQT_CORE_DS_DEPRECATED
#define MQT_CORE_DS_DEPRECATED_EXPORT
