// Harness: the real Arduino back end; the Arduino core is given by contracts.
#include <array>
#include <cstddef>
#include <cstdint>
#include <new>
#include <algorithm>
#include <string_view>
#include "arduino/AnalogPin.cpp"
#include "arduino/Delays.cpp"
#include "arduino/GpioDigitalPin.cpp"
#include "arduino/I2CBus.cpp"
#include "arduino/I2CDevice.cpp"
#include "arduino/PacketUart.cpp"
#include "arduino/SerialOut.cpp"
#include "arduino/SpiBus.cpp"
#include "arduino/SpiDevice.cpp"
#include "h_hw.inc"
extern SPIClass g_spi;
extern TwoWire g_wire;
extern "C" {
void* obj_spi() { return &g_spi; }
void* obj_wire() { return &g_wire; }
void mk_spibus(void* m, SPIClass* s, uint32_t f) { new (m) SpiBus(*s, f); }
void mk_i2cbus(void* m, TwoWire* w) { new (m) I2CBus(*w); }
void w_resetbus(I2CBus* b) { b->resetBus(); }
void w_sendbyte(SpiBus* b, uint8_t v) { b->sendByte(v); }
void w_sendbytes(SpiBus* b, const uint8_t* p, uint16_t n) { b->sendBytes(p, n); }
}
