// the part of the harness both back ends share
using namespace embedded;
extern SpiBus g_spibus;
extern SpiDevice g_spidev;
extern I2CBus g_i2cbus;
extern I2CDevice g_i2cdev;
extern GpioPinDefinition g_pindef;
extern GpioDigitalPin g_pin;
extern AnalogPin g_apin;
extern ChipSelector g_cs;
extern PacketUart::UartDevice g_uart;
extern PacketUart g_packet;
extern SerialOut g_out;
extern "C" {
void* obj_spibus() { return &g_spibus; }
void* obj_spidev() { return &g_spidev; }
void* obj_i2cbus() { return &g_i2cbus; }
void* obj_i2cdev() { return &g_i2cdev; }
void* obj_pindef() { return &g_pindef; }
void* obj_pin() { return &g_pin; }
void* obj_apin() { return &g_apin; }
void* obj_cs() { return &g_cs; }
void* obj_uart() { return &g_uart; }
void* obj_packet() { return &g_packet; }
void* obj_out() { return &g_out; }
void mk_spidev(void* m, SpiBus* b) { new (m) SpiDevice(*b); }
void mk_i2cdev(void* m, I2CBus* b, uint16_t a, uint32_t t) { new (m) I2CDevice(*b, a, t); }
void mk_pin(void* m, GpioPinDefinition* d) { new (m) GpioDigitalPin(*d); }
void mk_pindef(GpioPinDefinition* d, uint8_t n) { d->pin = n; }
void mk_apin(void* m, GpioPinDefinition* d) { new (m) AnalogPin(*d); }
void mk_packet(void* m, PacketUart::UartDevice* u) { new (m) PacketUart(*u); }
void mk_uart(void* m, int n) { new (m) PacketUart::UartDevice(n); }
void mk_out(void* m, char* p, unsigned long n, PacketUart* u) { new (m) SerialOut(MemoryView<char>(p, n), *u); }

bool w_spi_send(const SpiDevice* d, const uint8_t* p, uint16_t n) { return d->sendSync(p, n); }
bool w_spi_recv(const SpiDevice* d, uint8_t* p, uint16_t n) { return d->receiveSync(p, n); }
bool w_spi_both(const SpiDevice* d, const uint8_t* t, uint8_t* r, uint16_t n) { return d->sendAndReceive(t, r, n); }
bool w_i2c_send(const I2CDevice* d, const uint8_t* p, uint16_t n) { return d->sendSync(p, n); }
bool w_i2c_recv(const I2CDevice* d, uint8_t* p, uint16_t n) { return d->receiveSync(p, n); }
bool w_i2c_both(const I2CDevice* d, const uint8_t* t, uint16_t tn, uint8_t* r, uint16_t rn) { return d->sendThenReceive(t, tn, r, rn); }
void w_pin_set(const GpioDigitalPin* p) { p->set(); }
void w_pin_reset(const GpioDigitalPin* p) { p->reset(); }
void w_pin_level(const GpioDigitalPin* p, bool v) { p->set(v); }
bool w_pin_check(const GpioDigitalPin* p) { return p->check(); }
bool w_pin_init(const GpioDigitalPin* p, bool input, int pull)
{
    return p->init(input ? GpioDigitalPin::Direction::Input : GpioDigitalPin::Direction::Output,
                   pull == 1 ? GpioDigitalPin::PullMode::Up : pull == 2 ? GpioDigitalPin::PullMode::Down : GpioDigitalPin::PullMode::None);
}
bool w_pin_init0(const GpioDigitalPin* p) { return p->init(); }
void w_cs_ctor(void* m, const GpioDigitalPin* p) { new (m) ChipSelector(*p); }
void w_cs_dtor(ChipSelector* c) { c->~ChipSelector(); }
int w_analog(const AnalogPin* p) { return p->singleRead(); }
uint16_t w_receive(PacketUart* u, uint8_t* b, uint16_t n, uint16_t t) { return u->Receive(b, n, t); }
uint16_t w_until(PacketUart* u, uint8_t* b, uint16_t n, uint8_t e, uint16_t t) { return u->ReceiveUntil(b, n, e, t); }
uint16_t w_between(PacketUart* u, uint8_t* b, uint16_t n, uint8_t s, uint8_t e, uint16_t t) { return u->ReceiveBetween(b, n, s, e, t); }
uint16_t w_send(const PacketUart* u, const uint8_t* b, uint16_t n, uint32_t t) { return u->Send(b, n, t); }
void w_delay(uint32_t n) { embedded::delay(n); }
void w_delay_us(uint32_t n) { embedded::delayMicroseconds(n); }
uint32_t w_ms() { return embedded::getMillisecondTicks(); }
uint64_t w_us() { return embedded::getMicrosecondTicks(); }

void o_end(SerialOut* o) { *o << SerialOut::end {}; }
void o_endl(SerialOut* o) { *o << SerialOut::endl {}; }
void o_str(SerialOut* o, const char* v) { *o << v; }
void o_byte(SerialOut* o, unsigned char v) { *o << v; }
void o_int(SerialOut* o, int v) { *o << v; }
void o_uint(SerialOut* o, unsigned v) { *o << v; }
void o_long(SerialOut* o, long v) { *o << v; }
void o_ulong(SerialOut* o, unsigned long v) { *o << v; }
void o_ll(SerialOut* o, long long v) { *o << v; }
void o_ull(SerialOut* o, unsigned long long v) { *o << v; }
void o_float(SerialOut* o, float v) { *o << v; }
void o_prec(SerialOut* o, int v) { *o << SerialOut::precision { v }; }
void o_bytes(SerialOut* o, const uint8_t* p, unsigned long n) { *o << embedded::ConstBytesView(p, n); }
}
