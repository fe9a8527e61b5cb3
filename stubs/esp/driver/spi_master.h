#pragma once
#include "../esp_err.h"
struct spi_device_t;
typedef spi_device_t* spi_device_handle_t;
typedef enum { SPI1_HOST = 0, SPI2_HOST = 1, SPI3_HOST = 2 } spi_host_device_t;
typedef enum { SPI_DMA_DISABLED = 0, SPI_DMA_CH_AUTO = 3 } spi_dma_chan_t;
#define SPICOMMON_BUSFLAG_MASTER (1 << 0)
#define SPICOMMON_BUSFLAG_NATIVE_PINS (1 << 2)
#define SPI_DEVICE_HALFDUPLEX (1 << 4)
struct spi_transaction_t
{
    uint32_t flags;
    uint16_t cmd;
    uint64_t addr;
    size_t length;
    size_t rxlength;
    void* user;
    const void* tx_buffer;
    void* rx_buffer;
};
struct spi_bus_config_t { int mosi_io_num, miso_io_num, sclk_io_num, quadwp_io_num, quadhd_io_num, max_transfer_sz; uint32_t flags; int intr_flags; };
struct spi_device_interface_config_t
{
    uint8_t command_bits, address_bits, dummy_bits, mode;
    uint16_t duty_cycle_pos, cs_ena_pretrans;
    uint8_t cs_ena_posttrans;
    int clock_speed_hz, input_delay_ns, spics_io_num;
    uint32_t flags;
    int queue_size;
};
extern "C" {
esp_err_t spi_bus_initialize(spi_host_device_t host, const spi_bus_config_t* cfg, spi_dma_chan_t dma);
esp_err_t spi_bus_add_device(spi_host_device_t host, const spi_device_interface_config_t* cfg, spi_device_handle_t* handle);
esp_err_t spi_bus_remove_device(spi_device_handle_t handle);
esp_err_t spi_bus_free(spi_host_device_t host);
esp_err_t spi_device_polling_transmit(spi_device_handle_t handle, spi_transaction_t* t);
esp_err_t spi_device_acquire_bus(spi_device_handle_t handle, uint32_t wait);
void spi_device_release_bus(spi_device_handle_t handle);
esp_err_t spi_device_polling_start(spi_device_handle_t handle, spi_transaction_t* t, uint32_t ticks);
esp_err_t spi_device_polling_end(spi_device_handle_t handle, uint32_t ticks);
esp_err_t spi_device_queue_trans(spi_device_handle_t handle, spi_transaction_t* t, uint32_t ticks);
esp_err_t spi_device_get_trans_result(spi_device_handle_t handle, spi_transaction_t** t, uint32_t ticks);
esp_err_t spi_device_transmit(spi_device_handle_t handle, spi_transaction_t* t);
}
