// U04: the names the driver gives to messages, fields, flags and configuration keys have the meaning the interface
// description gives them. Payloads are sent through the real parser and read by a listener.
#include "vh.h"
#include <climits>
#include <cmath>
#include <memory>
#include "parsers/ubx/ubx.h"
#include "ubxref.h"
using namespace vh;
using namespace mc::parsers::ublox;
typedef UbxMessage M;

// ---- a value as read: an integer, or the bits of a double
struct V { char k; uint64_t v; bool operator==(const V& o) const { return k == o.k && v == o.v; } };
static V fl(double d) { if (std::isnan(d)) return {'n', 0}; uint64_t b; memcpy(&b, &d, 8); return {'f', b}; }
template <class T> static V rd(T x)
{
    if constexpr (std::is_floating_point_v<T>) return fl((double)x);
    else if constexpr (std::is_same_v<T, char>) return {'i', (uint64_t)(uint8_t)x};
    else return {'i', (uint64_t)(int64_t)x};
}
static V ref(const Bytes& p, int off, char type, int size)
{
    uint64_t v = 0;
    for (int i = 0; i < size; ++i) v |= (uint64_t)((size_t)(off + i) < p.size() ? p[off + i] : 0) << (8 * i);
    if (type == 'f')
    {
        if (size == 4) { uint32_t b = (uint32_t)v; float f; memcpy(&f, &b, 4); return fl(f); }
        double d; memcpy(&d, &v, 8); return fl(d);
    }
    if (type == 'i' && size < 8 && (v >> (8 * size - 1)) & 1) v |= ~0ull << (8 * size);
    return {'i', v};
}
struct Field { std::string name; int off; char type; int size; std::function<V(const M&)> get; };
struct Msg { std::string name; int cls, id, head, block, blocks; std::vector<Field> f; };

#define U(s, n, o, sz) m.f.push_back({#n, o, 'u', sz, [](const M& x) { return rd(x.s.n); }})
#define I(s, n, o, sz) m.f.push_back({#n, o, 'i', sz, [](const M& x) { return rd(x.s.n); }})
#define F(s, n, o, sz) m.f.push_back({#n, o, 'f', sz, [](const M& x) { return rd(x.s.n); }})
#define A(s, n, o, sz, c) for (int i = 0; i < c; ++i) m.f.push_back({str("%s[%d]", #n, i), o + sz * i, 'u', sz, [i](const M& x) { return rd(x.s.n[i]); }})
#define B(k, s, arr, n, o, sz) m.f.push_back({str("%s[%d].%s", #arr, i, #n), base + o, k, sz, [i](const M& x) { return rd(x.s.arr[i].n); }})

// The tables below are written from the u-blox interface description: offset and size of every field.
static std::vector<Msg> table()
{
    std::vector<Msg> r;
    Msg m;
    auto begin = [&](const char* n, int c, int i, int head, int block = 0, int blocks = 0) { m = Msg{n, c, i, head, block, blocks, {}}; };
    auto end = [&] { r.push_back(m); };
    begin("ACK-ACK", 0x05, 0x01, 2); U(ACK_ACK, class_id, 0, 1); U(ACK_ACK, msg_id, 1, 1); end();
    begin("ACK-NAK", 0x05, 0x00, 2); U(ACK_NACK, class_id, 0, 1); U(ACK_NACK, msg_id, 1, 1); end();
    begin("CFG-MSG", 0x06, 0x01, 3); U(CFG_MSG, class_id, 0, 1); U(CFG_MSG, msg_id, 1, 1); U(CFG_MSG, rate, 2, 1); end();
    begin("CFG-PRT", 0x06, 0x00, 20);
    U(CFG_PRT, port_id, 0, 1); U(CFG_PRT, tx_ready, 2, 2); U(CFG_PRT, mode, 4, 4); U(CFG_PRT, baudrate, 8, 4); U(CFG_PRT, in_proto_mask, 12, 2);
    U(CFG_PRT, out_proto_mask, 14, 2); U(CFG_PRT, flags, 16, 2); end();
    begin("CFG-RATE", 0x06, 0x08, 6); U(CFG_RATE, measRate, 0, 2); U(CFG_RATE, navRate, 2, 2); U(CFG_RATE, timeRef, 4, 2); end();
    begin("CFG-NAV5", 0x06, 0x24, 36);
    U(CFG_NAV5, mask, 0, 2); U(CFG_NAV5, dyn_model, 2, 1); U(CFG_NAV5, fix_mode, 3, 1); I(CFG_NAV5, fixed_alt, 4, 4); U(CFG_NAV5, fixed_alt_var, 8, 4);
    I(CFG_NAV5, min_elev, 12, 1); U(CFG_NAV5, dr_limit, 13, 1); U(CFG_NAV5, p_dop, 14, 2); U(CFG_NAV5, t_dop, 16, 2); U(CFG_NAV5, p_acc, 18, 2);
    U(CFG_NAV5, t_acc, 20, 2); U(CFG_NAV5, static_hold_thr, 22, 1); U(CFG_NAV5, dgnss_timeout, 23, 1); U(CFG_NAV5, cno_thresh_num_s, 24, 1);
    U(CFG_NAV5, cno_thresh, 25, 1); U(CFG_NAV5, static_hold_max, 28, 2); U(CFG_NAV5, utc_standard, 30, 1); end();
    begin("CFG-VALGET", 0x06, 0x8b, 16); U(CFG_VALGET, version, 0, 1); U(CFG_VALGET, layer, 1, 1); U(CFG_VALGET, cfg_data_key, 4, 4); U(CFG_VALGET, cfg_data, 8, 8); end();
    begin("CFG-VALSET", 0x06, 0x8a, 12); U(CFG_VALSET, version, 0, 1); U(CFG_VALSET, layer, 1, 1); U(CFG_VALSET, cfg_data_key, 4, 4); U(CFG_VALSET, cfg_data.word, 8, 4);
    A(CFG_VALSET, cfg_data.bytes, 8, 1, 4); A(CFG_VALSET, cfg_data.half_word, 8, 2, 2); end();
    begin("CFG-TMODE3", 0x06, 0x71, 40);
    U(CFG_TMODE3, version, 0, 1); U(CFG_TMODE3, flags, 2, 2); I(CFG_TMODE3, ecef_x_or_lat, 4, 4); I(CFG_TMODE3, ecef_y_or_lon, 8, 4); I(CFG_TMODE3, ecef_z_or_alt, 12, 4);
    I(CFG_TMODE3, ecef_x_or_lat_hp, 16, 1); I(CFG_TMODE3, ecef_y_or_lon_hp, 17, 1); I(CFG_TMODE3, ecef_z_or_alt_hp, 18, 1); U(CFG_TMODE3, fixed_pos_acc, 20, 4);
    U(CFG_TMODE3, svin_min_dur, 24, 4); U(CFG_TMODE3, svin_acc_limit, 28, 4); end();
    begin("NAV-PVT", 0x01, 0x07, 92);
    U(NAV_PVT, i_tow, 0, 4); U(NAV_PVT, year, 4, 2); U(NAV_PVT, month, 6, 1); U(NAV_PVT, day, 7, 1); U(NAV_PVT, hour, 8, 1); U(NAV_PVT, min, 9, 1); U(NAV_PVT, sec, 10, 1);
    U(NAV_PVT, valid, 11, 1); U(NAV_PVT, t_acc, 12, 4); I(NAV_PVT, nano, 16, 4); U(NAV_PVT, fix_type, 20, 1); U(NAV_PVT, flags, 21, 1); U(NAV_PVT, flags2, 22, 1);
    U(NAV_PVT, num_sv, 23, 1); I(NAV_PVT, lon, 24, 4); I(NAV_PVT, lat, 28, 4); I(NAV_PVT, height, 32, 4); I(NAV_PVT, h_msl, 36, 4); U(NAV_PVT, h_acc, 40, 4); U(NAV_PVT, v_acc, 44, 4);
    I(NAV_PVT, vel_n, 48, 4); I(NAV_PVT, vel_e, 52, 4); I(NAV_PVT, vel_d, 56, 4); I(NAV_PVT, g_speed, 60, 4); I(NAV_PVT, head_mot, 64, 4); U(NAV_PVT, s_acc, 68, 4);
    U(NAV_PVT, head_acc, 72, 4); U(NAV_PVT, p_dop, 76, 2); I(NAV_PVT, head_veh, 84, 4); I(NAV_PVT, mag_dec, 88, 2); U(NAV_PVT, mag_acc, 90, 2); end();
    begin("NAV-POSECEF", 0x01, 0x01, 20);
    U(NAV_POSECEF, i_tOW, 0, 4); I(NAV_POSECEF, ecef_x, 4, 4); I(NAV_POSECEF, ecef_y, 8, 4); I(NAV_POSECEF, ecef_z, 12, 4); U(NAV_POSECEF, p_acc, 16, 4); end();
    begin("NAV-VELECEF", 0x01, 0x11, 20);
    U(NAV_VELECEF, i_tOW, 0, 4); I(NAV_VELECEF, ecef_vx, 4, 4); I(NAV_VELECEF, ecef_vy, 8, 4); I(NAV_VELECEF, ecef_vz, 12, 4); U(NAV_VELECEF, s_acc, 16, 4); end();
    begin("NAV-RELPOSNED", 0x01, 0x3c, 64);
    U(NAV_RELPOSNED, version, 0, 1); U(NAV_RELPOSNED, ref_station_id, 2, 2); U(NAV_RELPOSNED, i_tow, 4, 4); I(NAV_RELPOSNED, rel_pos_n, 8, 4); I(NAV_RELPOSNED, rel_pos_e, 12, 4);
    I(NAV_RELPOSNED, rel_pos_d, 16, 4); I(NAV_RELPOSNED, rel_pos_length, 20, 4); I(NAV_RELPOSNED, rel_pos_heading, 24, 4); I(NAV_RELPOSNED, rel_pos_hpn, 32, 1);
    I(NAV_RELPOSNED, rel_pos_hpe, 33, 1); I(NAV_RELPOSNED, rel_pos_hpd, 34, 1); I(NAV_RELPOSNED, rel_pos_hp_length, 35, 1); U(NAV_RELPOSNED, acc_n, 36, 4); U(NAV_RELPOSNED, acc_e, 40, 4);
    U(NAV_RELPOSNED, acc_d, 44, 4); U(NAV_RELPOSNED, acc_length, 48, 4); U(NAV_RELPOSNED, acc_heading, 52, 4); U(NAV_RELPOSNED, flags, 60, 4); end();
    begin("NAV-SVIN", 0x01, 0x3b, 40);
    U(NAV_SVIN, version, 0, 1); U(NAV_SVIN, i_tow, 4, 4); U(NAV_SVIN, dur, 8, 4); I(NAV_SVIN, mean_x, 12, 4); I(NAV_SVIN, mean_y, 16, 4); I(NAV_SVIN, mean_z, 20, 4);
    I(NAV_SVIN, mean_xhp, 24, 1); I(NAV_SVIN, mean_yhp, 25, 1); I(NAV_SVIN, mean_zhp, 26, 1); U(NAV_SVIN, mean_acc, 28, 4); U(NAV_SVIN, obs, 32, 4); U(NAV_SVIN, valid, 36, 1);
    U(NAV_SVIN, active, 37, 1); end();
    begin("MON-TXBUF", 0x0a, 0x08, 28);
    A(MON_TXBUF, pending, 0, 2, 6); A(MON_TXBUF, usage, 12, 1, 6); A(MON_TXBUF, peak_usage, 18, 1, 6); U(MON_TXBUF, t_usage, 24, 1); U(MON_TXBUF, t_peak_usage, 25, 1);
    U(MON_TXBUF, errors, 26, 1); end();
    begin("MON-VER", 0x0a, 0x04, 40, 30, 10); A(MON_VER, sw_version, 0, 1, 30); A(MON_VER, hw_version, 30, 1, 10);
    for (int e = 0; e < 10; ++e) for (int i = 0; i < 30; ++i) m.f.push_back({str("extension[%d][%d]", e, i), 40 + 30 * e + i, 'u', 1, [e, i](const M& x) { return rd(x.MON_VER.extension[e][i]); }});
    end();
    begin("MON-COMMS", 0x0a, 0x36, 8, 40, 5); U(MON_COMM, version, 0, 1); U(MON_COMM, n_ports, 1, 1); U(MON_COMM, tx_errors, 2, 1); A(MON_COMM, port_ids, 4, 1, 4);
    for (int i = 0; i < 5; ++i)
    {
        int base = 8 + 40 * i;
        B('u', MON_COMM, blocks, port_id, 0, 2); B('u', MON_COMM, blocks, tx_pending, 2, 2); B('u', MON_COMM, blocks, tx_bytes, 4, 4); B('u', MON_COMM, blocks, tx_usage, 8, 1);
        B('u', MON_COMM, blocks, tx_peak_usage, 9, 1); B('u', MON_COMM, blocks, rx_pending, 10, 2); B('u', MON_COMM, blocks, rx_bytes, 12, 4); B('u', MON_COMM, blocks, rx_usage, 16, 1);
        B('u', MON_COMM, blocks, rx_peak_usage, 17, 1); B('u', MON_COMM, blocks, overrun_errs, 18, 2); B('u', MON_COMM, blocks, skipped, 36, 4);
        for (int j = 0; j < 4; ++j) m.f.push_back({str("blocks[%d].msgs[%d]", i, j), base + 20 + 2 * j, 'u', 2, [i, j](const M& x) { return rd(x.MON_COMM.blocks[i].msgs[j]); }});
    }
    end();
    begin("RXM-RAWX", 0x02, 0x15, 16, 32, 63); F(RXM_RAWX, rcv_tow, 0, 8); U(RXM_RAWX, week, 8, 2); I(RXM_RAWX, leap_s, 10, 1); U(RXM_RAWX, num_meas, 11, 1); U(RXM_RAWX, rec_stat, 12, 1); U(RXM_RAWX, version, 13, 1);
    for (int i = 0; i < 63; ++i)
    {
        int base = 16 + 32 * i;
        B('f', RXM_RAWX, meas, pr_meas, 0, 8); B('f', RXM_RAWX, meas, cp_meas, 8, 8); B('f', RXM_RAWX, meas, do_meas, 16, 4); B('u', RXM_RAWX, meas, gnss_id, 20, 1); B('u', RXM_RAWX, meas, sv_id, 21, 1);
        B('u', RXM_RAWX, meas, sig_id, 22, 1); B('u', RXM_RAWX, meas, freq_id, 23, 1); B('u', RXM_RAWX, meas, locktime, 24, 2); B('u', RXM_RAWX, meas, cno, 26, 1); B('u', RXM_RAWX, meas, pr_stdev, 27, 1);
        B('u', RXM_RAWX, meas, cp_stdev, 28, 1); B('u', RXM_RAWX, meas, do_stdev, 29, 1); B('u', RXM_RAWX, meas, trk_stat, 30, 1);
    }
    end();
    begin("RXM-SFRBX", 0x02, 0x13, 8, 4, 10); U(RXM_SFRBX, gnss_id, 0, 1); U(RXM_SFRBX, sv_id, 1, 1); U(RXM_SFRBX, freq_id, 3, 1); U(RXM_SFRBX, num_words, 4, 1); U(RXM_SFRBX, chn, 5, 1); U(RXM_SFRBX, version, 6, 1);
    A(RXM_SFRBX, dwrd, 8, 4, 10); end();
    return r;
}

struct Lis : UbxListener
{
    std::function<void(int, int, const M&)> f;
    void gotUbx(const uint8_t c, const uint8_t i, const M& m) override { f(c, i, m); }
};
struct Rig
{
    async_comm::Comm comm;
    std::unique_ptr<Ubx> u;
    Lis l;
    Rig() { u = std::make_unique<Ubx>(comm); u->registerListener(&l); }
    void feed(const Bytes& b) { u->receive_callback(b.data(), b.size()); }
};

static void fields()
{
    for (auto& m : table())
    {
        int full = m.head + m.block * m.blocks;
        Rig x;
        x.l.subscribe(m.cls, m.id);
        const Bytes* sent = nullptr;
        long got = 0;
        x.l.f = [&](int c, int i, const M& r) {
            ++got;
            expect(c == m.cls && i == m.id, "another message delivered", str("%02x-%02x", c, i));
            for (auto& f : m.f)
            {
                if (f.name == "num_meas" && f.off < (int)sent->size() && (*sent)[f.off] > 63) continue;  // more than a message holds
                V a = f.get(r), b = ref(*sent, f.off, f.type, f.size);
                eval();
                if (!(a == b)) violation("a field of a received message does not read as it was sent", str("%s.%s reads as %c:%llx, sent %c:%llx", m.name.c_str(), f.name.c_str(), a.k, (unsigned long long)a.v, b.k, (unsigned long long)b.v));
            }
        };
        auto send = [&](const Bytes& p) {
            long before = got;
            sent = &p;
            x.feed(ubx_frame(m.cls, m.id, p));
            expect(got == before + 1, "message not delivered");
            state(hbytes(p.data(), p.size()));
            nontrivial(mix(m.cls * 256 + m.id, p.size()));
        };
        std::vector<int> vals;
        if (full <= 100 || thorough()) for (int v = 0; v < 256; ++v) vals.push_back(v);
        else vals = {0, 1, 2, 4, 8, 16, 32, 64, 127, 128, 129, 254, 255};
        for (int bg : {0x00, 0xff, -1})
            for (int n = m.blocks; n >= 0; --n)
            {
                Bytes p(m.head + m.block * n);
                for (size_t i = 0; i < p.size(); ++i) p[i] = bg >= 0 ? bg : (uint8_t)(i * 29 + (i >> 8) * 7 + 3);
                if (!mine(n + 3 * m.cls + m.id)) continue;
                ctx("%s: %zu bytes of %d", m.name.c_str(), p.size(), bg);
                send(p);
                // every byte on its own: in the whole message and in the shortest
                if (n != m.blocks && n > 1) continue;
                for (size_t i = 0; i < p.size(); ++i)
                {
                    ctx("%s: %zu bytes of %d, byte %zu replaced", m.name.c_str(), p.size(), bg, i);
                    uint8_t keep = p[i];
                    for (int v : vals)
                    {
                        p[i] = v;
                        send(p);
                    }
                    p[i] = keep;
                }
            }
        outcome(mix(m.cls, m.id));
        (void)full;
    }
}

// ---- numbers behind names
struct Name { const char* name; int value, want; };
static void names()
{
#define N(n, w) {#n, n, w}
    std::vector<std::pair<int, std::vector<Name>>> t = {
        {CLASS_ACK, {N(ACK_ACK, 1), N(ACK_NACK, 0)}},
        {CLASS_AID, {N(AID_ALM, 0x30), N(AID_AOP, 0x33), N(AID_EPH, 0x31), N(AID_HUI, 2), N(AID_INI, 1)}},
        {CLASS_CFG, {N(CFG_ANT, 0x13), N(CFG_BATCH, 0x93), N(CFG_CFG, 0x09), N(CFG_DAT, 0x06), N(CFG_DGNSS, 0x70), N(CFG_DOSC, 0x61), N(CFG_DYNSEED, 0x85), N(CFG_ESRC, 0x60), N(CFG_FIXSEED, 0x84),
                     N(CFG_GEOFENCE, 0x69), N(CFG_GNSS, 0x3e), N(CFG_HNR, 0x5c), N(CFG_INF, 2), N(CFG_ITFM, 0x39), N(FG_LOGFILTER, 0x47), N(CFG_MSG, 1), N(CFG_NAV5, 0x24), N(CFG_NAVX5, 0x23), N(CFG_NMEA, 0x17),
                     N(CFG_ODO, 0x1e), N(CFG_PM2, 0x3b), N(CFG_PMS, 0x86), N(CFG_PRT, 0), N(CFG_PWR, 0x57), N(CFG_RATE, 8), N(CFG_RINV, 0x34), N(CFG_RST, 4), N(CFG_RXM, 0x11), N(CFG_SBAS, 0x16), N(CFG_SMGR, 0x62),
                     N(CFG_TMODE2, 0x3d), N(CFG_TMODE3, 0x71), N(CFG_TP5, 0x31), N(CFG_TXSLOT, 0x53), N(CFG_USB, 0x1b), N(CFG_VALDEL, 0x8c), N(CFG_VALGET, 0x8b), N(CFG_VALSET, 0x8a)}},
        {CLASS_NAV, {N(NAV_AOPSTATUS, 0x60), N(NAV_ATT, 5), N(NAV_CLOCK, 0x22), N(NAV_DGPS, 0x31), N(NAV_DOP, 4), N(NAV_EOE, 0x61), N(NAV_GEOFENCE, 0x39), N(NAV_HPPOSECEF, 0x13), N(NAV_HPPOSLLH, 0x14), N(NAV_ODO, 9),
                     N(NAV_ORB, 0x34), N(NAV_POSECEF, 1), N(NAV_POSLLH, 2), N(NAV_PVT, 7), N(NAV_RELPOSNED, 0x3c), N(NAV_RESETODO, 0x10), N(NAV_SAT, 0x35), N(NAV_SBAS, 0x32), N(NAV_SOL, 6), N(NAV_STATUS, 3),
                     N(NAV_SVINFO, 0x30), N(NAV_SVIN, 0x3b), N(NAV_TIMEBDS, 0x24), N(NAV_TIMEGAL, 0x25), N(NAV_TIMEGLO, 0x23), N(NAV_TIMEGPS, 0x20), N(NAV_TIMELS, 0x26), N(NAV_TIMEUTC, 0x21), N(NAV_VELECEF, 0x11),
                     N(NAV_VELNED, 0x12), N(NAV_SIG, 0x43)}},
        {CLASS_MON, {N(MON_COMMS, 0x36), N(MON_GNSS, 0x28), N(MON_HW2, 0x0b), N(MON_HW3, 0x37), N(MON_HW, 9), N(MON_IO, 2), N(MON_MSGPP, 6), N(MON_PATCH, 0x27), N(MON_RF, 0x38), N(MON_RXBUF, 7), N(MON_RXR, 0x21),
                     N(MON_TXBUF, 8), N(MON_VER, 4)}},
        {CLASS_RXM, {N(RXM_RAWX, 0x15), N(RXM_SFRBX, 0x13)}}};
    std::map<int, int> cls = {{CLASS_NAV, 1}, {CLASS_RXM, 2}, {CLASS_INF, 4}, {CLASS_ACK, 5}, {CLASS_CFG, 6}, {CLASS_UPD, 9}, {CLASS_MON, 0x0a}, {CLASS_AID, 0x0b}, {CLASS_TIM, 0x0d}, {CLASS_ESF, 0x10}, {CLASS_MGA, 0x13}, {CLASS_LOG, 0x21}, {CLASS_RTCM, 0xf5}};
    expect(cls.size() == 13, "two message classes of one number");
    for (auto& c : cls) expect(c.first == c.second, "a message class has another number than the interface description gives it", str("%02x, not %02x", c.first, c.second));
    int k = 0;
    for (auto& g : t)
        for (auto& n : g.second)
        {
            if (!mine(k++)) continue;
            int want_cls = cls[g.first];
            ctx("a listener subscribes to %s", n.name);
            Rig x;
            std::vector<std::pair<int, int>> got;
            x.l.f = [&](int c, int i, const M&) { got.push_back({c, i}); };
            x.l.subscribe(g.first, n.value);
            for (auto& c : cls)
                for (int id = 0; id < 256; ++id) { x.feed(ubx_frame(c.second, id, Bytes(4, 0))); transition(); }
            std::vector<std::pair<int, int>> want = {{want_cls, n.want}};
            expect(got == want, "a subscription receives other messages than the named one", str("%zu delivered, first %02x-%02x instead of %02x-%02x", got.size(), got.empty() ? 0 : got[0].first, got.empty() ? 0 : got[0].second, want_cls, n.want));
            state(mix(want_cls, n.want));
            nontrivial(mix(want_cls, n.want));
        }
    // configuration keys, as the receiver sees them
    struct Key { const char* name; uint32_t value, get, want; int size; };
#define K(n, w, s) {#n, CFG_VALSET_t::n, CFG_VALGET_t::n, w, s}
    std::vector<Key> keys = {K(MSGOUT_RELPOSNED, 0x20910090, 1), K(MSGOUT_PVT, 0x20910009, 1), K(MSGOUT_POSECEF, 0x20910027, 1), K(MSGOUT_VELECEF, 0x20910040, 1), K(MSGOUT_RAWX, 0x209102a7, 1),
        K(MSGOUT_SFRBX, 0x20910234, 1), K(RTCM_1005USB, 0x209102c0, 1), K(RTCM_1074USB, 0x20910361, 1), K(RTCM_1084USB, 0x20910366, 1), K(RTCM_1094USB, 0x2091036b, 1), K(RTCM_1124USB, 0x20910370, 1),
        K(RTCM_1230USB, 0x20910306, 1), K(RTCM_4072_0USB, 0x20910301, 1), K(RTCM_4072_1USB, 0x20910384, 1), K(RTCM_1077USB, 0x209102cf, 1), K(RTCM_1087USB, 0x209102d4, 1), K(RTCM_1097USB, 0x2091031b, 1),
        K(RTCM_1127USB, 0x209102d9, 1), K(USB_INPROT_UBX, 0x10770001, 1), K(USB_INPROT_NMEA, 0x10770002, 1), K(USB_INPROT_RTCM3X, 0x10770004, 1), K(USB_OUTPROT_UBX, 0x10780001, 1),
        K(USB_OUTPROT_NMEA, 0x10780002, 1), K(USB_OUTPROT_RTCM3X, 0x10780004, 1), K(DYNMODEL, 0x20110021, 1), K(MSGOUT_SVIN, 0x2091008b, 1), K(TMODE_MODE, 0x20030001, 1), K(TMODE_SVIN_MIN_DUR, 0x40030010, 4),
        K(TMODE_SVIN_ACC_LIMIT, 0x40030011, 4), K(SIGNAL_GPS, 0x1031001f, 1), K(SIGNAL_GPS_L1, 0x10310001, 1), K(SIGNAL_GPS_L2, 0x10310003, 1), K(SIGNAL_GAL, 0x10310021, 1), K(SIGNAL_GAL_E1, 0x10310007, 1),
        K(SIGNAL_GAL_E5B, 0x1031000a, 1), K(SIGNAL_BDS, 0x10310022, 1), K(SIGNAL_BDS_B1, 0x1031000d, 1), K(SIGNAL_BDS_B2, 0x1031000e, 1), K(RATE_MEAS, 0x30210001, 2), K(RATE_NAV, 0x30210002, 2), K(RATE_TIMEREF, 0x20210003, 1)};
    std::map<uint32_t, const char*> seen;
    for (auto& q : keys)
    {
        expect(!seen.count(q.value), "two configuration keys of one number", q.name);
        seen[q.value] = q.name;
    }
    for (auto& q : keys)
        for (int layer : {1, 2, 4})
        {
            if (!mine(k++)) continue;
            ctx("key %s, layer %d", q.name, layer);
            Rig x;
            x.u->configure(CFG_VALSET_t::VERSION_0, layer == 1 ? CFG_VALSET_t::RAM : layer == 2 ? CFG_VALSET_t::BBR : CFG_VALSET_t::FLASH, 1, q.value, q.size);
            Bytes p(12, 0);
            p[1] = layer; for (int i = 0; i < 4; ++i) p[4 + i] = q.want >> (8 * i);
            p[8] = 1;
            Bytes want = ubx_frame(0x06, 0x8a, p);
            x.u->getConfiguration(CFG_VALGET_t::REQUEST, layer == 1 ? CFG_VALGET_t::RAM : layer == 2 ? CFG_VALGET_t::BBR : CFG_VALGET_t::FLASH, q.get);
            Bytes g(16, 0);
            g[1] = layer / 2; for (int i = 0; i < 4; ++i) g[4 + i] = q.want >> (8 * i);
            Bytes f = ubx_frame(0x06, 0x8b, g);
            want.insert(want.end(), f.begin(), f.end());
            transition(2);
            expect(Bytes(x.comm.sent.begin(), x.comm.sent.end()) == want, "a named configuration key reaches the receiver as another one");
            state(mix(q.want, layer)); nontrivial(mix(q.want, 7 + layer));
        }
    // values and flags
    struct Flag { const char* name; long value, want; };
#define G(t, n, w) {#t "::" #n, t::n, w}
    std::vector<Flag> flags = {
        G(CFG_NAV5_t, DYNMODE_PORTABLE, 0), G(CFG_NAV5_t, DYNMODE_STATIONARY, 2), G(CFG_NAV5_t, DYNMODE_PEDESTRIAN, 3), G(CFG_NAV5_t, DYNMODE_AUTOMOTIVE, 4), G(CFG_NAV5_t, DYNMODE_SEA, 5),
        G(CFG_NAV5_t, DYNMODE_AIRBORNE_1G, 6), G(CFG_NAV5_t, DYNMODE_AIRBORNE_2G, 7), G(CFG_NAV5_t, DYNMODE_AIRBORNE_4G, 8), G(CFG_NAV5_t, FIXMODE_2D_ONLY, 1), G(CFG_NAV5_t, FIXMODE_3D_ONLY, 2),
        G(CFG_NAV5_t, FIXMODE_AUTO, 3), G(CFG_NAV5_t, UTC_STANDARD_AUTO, 0), G(CFG_NAV5_t, UTC_STANDARD_USA, 3), G(CFG_NAV5_t, UTC_STANDARD_RUS, 6), G(CFG_NAV5_t, UTC_STANDARD_CHN, 7),
        G(CFG_NAV5_t, MASK_DYN, 1 << 0), G(CFG_NAV5_t, MASK_MINEL, 1 << 1), G(CFG_NAV5_t, MASK_POSFIXMODE, 1 << 2), G(CFG_NAV5_t, MASK_DRLIM, 1 << 3), G(CFG_NAV5_t, MASK_POSMASK, 1 << 4),
        G(CFG_NAV5_t, MASK_TIMEMASK, 1 << 5), G(CFG_NAV5_t, MASK_STATICHOLDMASK, 1 << 6), G(CFG_NAV5_t, MASK_DGPSMASK, 1 << 7), G(CFG_NAV5_t, MASK_CNOTHRESHOLD, 1 << 8), G(CFG_NAV5_t, MASK_UTC, 1 << 10),
        G(CFG_PRT_t, PORT_I2C, 0), G(CFG_PRT_t, PORT_UART1, 1), G(CFG_PRT_t, PORT_USB, 3), G(CFG_PRT_t, PORT_SPI, 4), G(CFG_PRT_t, CHARLEN_8BIT, 3 << 6), G(CFG_PRT_t, PARITY_NONE, 4 << 9),
        G(CFG_PRT_t, STOP_BITS_1, 0), G(CFG_PRT_t, IN_UBX, 1), G(CFG_PRT_t, IN_NMEA, 2), G(CFG_PRT_t, IN_RTCM, 4), G(CFG_PRT_t, IN_RTCM3, 32), G(CFG_PRT_t, OUT_UBX, 1), G(CFG_PRT_t, OUT_NMEA, 2),
        G(CFG_PRT_t, OUT_RTCM3, 32), G(CFG_TMODE3_t, DISABLED, 0), G(CFG_TMODE3_t, SURVEY_IN, 1), G(CFG_TMODE3_t, FIXED, 2), G(CFG_TMODE3_t, LLA, 1 << 8), G(CFG_VALGET_t, RAM, 0), G(CFG_VALGET_t, BBR, 1),
        G(CFG_VALGET_t, FLASH, 2), G(CFG_VALGET_t, DEFAULT, 7), G(CFG_VALSET_t, RAM, 1), G(CFG_VALSET_t, BBR, 2), G(CFG_VALSET_t, FLASH, 4), G(CFG_VALSET_t, VALSET_float, 2), G(CFG_VALSET_t, VALSET_fixed, 3),
        G(CFG_VALSET_t, DYNMODE_PORTABLE, 0), G(CFG_VALSET_t, DYNMODE_STATIONARY, 2), G(CFG_VALSET_t, DYNMODE_PEDESTRIAN, 3), G(CFG_VALSET_t, DYNMODE_AUTOMOTIVE, 4), G(CFG_VALSET_t, DYNMODE_SEA, 5),
        G(CFG_VALSET_t, DYNMODE_AIRBORNE_1G, 6), G(CFG_VALSET_t, DYNMODE_AIRBORNE_2G, 7), G(CFG_VALSET_t, DYNMODE_AIRBORNE_4G, 8), G(CFG_VALSET_t, DYNMODE_WRIST_WORN, 9), G(CFG_VALSET_t, DYNMODE_BIKE, 10),
        G(CFG_VALSET_t, TIME_REF_UTC, 0), G(CFG_VALSET_t, TIME_REF_GPS, 1), G(CFG_VALSET_t, TIME_REF_GLONASS, 2), G(CFG_VALSET_t, TIME_REF_BUIDOU, 3), G(CFG_VALSET_t, TIME_REF_GALILEO, 4),
        G(CFG_RATE_t, TIME_REF_UTC, 0), G(CFG_RATE_t, TIME_REF_GPS, 1), G(CFG_RATE_t, TIME_REF_GLONASS, 2), G(CFG_RATE_t, TIME_REF_BUIDOU, 3), G(CFG_RATE_t, TIME_REF_GALILEO, 4),
        G(NAV_PVT_t, VALIDITY_FLAGS_VALIDDATE, 1), G(NAV_PVT_t, VALIDITY_FLAGS_VALIDTIME, 2), G(NAV_PVT_t, VALIDITY_FLAGS_FULLYRESOLVED, 4), G(NAV_PVT_t, FIX_STATUS_GNSS_FIX_OK, 1),
        G(NAV_PVT_t, FIX_STATUS_DIFF_SOLN, 2), G(NAV_PVT_t, FIX_STATUS_PSM_STATE_NOT_ACTIVE, 0 << 2), G(NAV_PVT_t, FIX_STATUS_PSM_STATE_ENABLED, 1 << 2), G(NAV_PVT_t, FIX_STATUS_PSM_STATE_ACQUISITION, 2 << 2),
        G(NAV_PVT_t, FIX_STATUS_PSM_STATE_TRACKING, 3 << 2), G(NAV_PVT_t, FIX_STATUS_PSM_STATE_POWER_OPTIMIZED_TRACKING, 4 << 2), G(NAV_PVT_t, FIX_STATUS_PSM_STATE_INACTIVE, 5 << 2),
        G(NAV_PVT_t, FIX_STATUS_HEADING_VALID, 1 << 5), G(NAV_PVT_t, FIX_STATUS_CARR_SOLN_NONE, 0), G(NAV_PVT_t, FIX_STATUS_CARR_SOLN_FLOAT, 1 << 6), G(NAV_PVT_t, FIX_STATUS_CARR_SOLN_FIXED, 2 << 6),
        G(NAV_RELPOSNED_t, FLAGS_GNSS_FIX_OK, 1 << 0), G(NAV_RELPOSNED_t, FLAGS_DIFF_SOLN, 1 << 1), G(NAV_RELPOSNED_t, FLAGS_REL_POS_VALID, 1 << 2), G(NAV_RELPOSNED_t, FLAGS_CARR_SOLN_FLOAT, 1 << 3),
        G(NAV_RELPOSNED_t, FLAGS_CARR_SOLN_FIXED, 2 << 3), G(NAV_RELPOSNED_t, FLAGS_IS_MOVING, 1 << 5), G(NAV_RELPOSNED_t, FLAGS_REF_POS_MISS, 1 << 6), G(NAV_RELPOSNED_t, FLAGS_REF_OBS_MISS, 1 << 7),
        G(NAV_RELPOSNED_t, FLAGS_REL_POS_HEADING_VALID, 1 << 8), G(MON_TXBUF_t, LIMIT, 0x3f), G(MON_TXBUF_t, MEM, 1 << 6), G(MON_TXBUF_t, ALLOC, 1 << 7), G(MON_COMMS_t, MEM, 1 << 0), G(MON_COMMS_t, ALLOC, 1 << 1),
        G(RXM_RAWX_t, REC_STAT_LEAP_SEC, 1 << 0), G(RXM_RAWX_t, REC_STAT_CLK_RESET, 1 << 1), G(RXM_RAWX_t, TRK_STAT_PR_VALID, 1 << 0), G(RXM_RAWX_t, TRK_STAT_CP_VALID, 1 << 1), G(RXM_RAWX_t, TRK_STAT_HALF_CYC, 1 << 2),
        G(RXM_RAWX_t, TRK_STAT_SUB_HALF_CYC, 1 << 3), {"FIX_TYPE_NO_FIX", FIX_TYPE_NO_FIX, 0}, {"FIX_TYPE_DEAD_RECKONING", FIX_TYPE_DEAD_RECKONING, 1}, {"FIX_TYPE_2D", FIX_TYPE_2D, 2}, {"FIX_TYPE_3D", FIX_TYPE_3D, 3},
        {"FIX_TYPE_GPS_AND_DEAD_RECKONING", FIX_TYPE_GPS_AND_DEAD_RECKONING, 4}, {"FIX_TYPE_TIME_ONLY", FIX_TYPE_TIME_ONLY, 5}};
    for (auto& f : flags)
    {
        if (!mine(k++)) continue;
        ctx("%s", f.name);
        long bad = -1;
        for (long v = 0; v < 0x10000 && bad < 0; ++v) { eval(); if ((v & f.value) != (v & f.want) || (v == f.value) != (v == f.want)) bad = v; }
        expect(bad < 0, "a named value or flag differs from the interface description", str("%s is %lx, not %lx", f.name, f.value, f.want));
        state(mix(hstr(f.name), f.want)); nontrivial(hstr(f.name));
    }
}

static void numbering()
{
    // satellite numbers: the ranges of the single numbering of the interface description
    auto sys = [](long n) {
        struct R { int lo, hi, id; };
        for (R r : {R{1, 32, 0}, R{33, 64, 3}, R{65, 96, 6}, R{120, 158, 1}, R{159, 163, 3}, R{193, 197, 5}, R{211, 246, 2}, R{255, 255, 6}}) if (n >= r.lo && n <= r.hi) return r.id;
        return -1;
    };
    std::vector<long> ns = {INT_MIN, INT_MIN + 1, INT_MAX, INT_MAX - 1};
    for (long n = -70000; n <= 70000; ++n) ns.push_back(n);
    for (long n : ns)
    {
        if (!mine(n & 0xffff)) continue;
        ctx("satellite number %ld", n);
        expect(sysId((int)n) == sys(n), "a satellite number belongs to another system", str("%d, not %d", sysId((int)n), sys(n)));
        if (sys(n) >= 0) nontrivial(n);
        state(n);
    }
    std::map<std::pair<int, int>, int> sig = {{{0, 0}, GPS_L1_CA}, {{0, 3}, GPS_L2_CL}, {{0, 4}, GPS_L2_CM}, {{2, 0}, Galileo_E1_C}, {{2, 1}, Galileo_E1_B}, {{2, 5}, Galileo_E5_BI}, {{2, 6}, Galileo_E5_BQ},
        {{3, 0}, Beidou_B1I_D1}, {{3, 1}, Beidou_B1I_D2}, {{3, 2}, Beidou_B2I_D1}, {{3, 3}, Beidou_B2I_D2}, {{5, 0}, QZSS_L1_CA}, {{6, 0}, Glonass_L1}, {{6, 2}, Glonass_L2}};
    std::map<int, int> back;
    for (auto& s : sig) back[s.second]++;
    expect(back.size() == 14, "two signals of one name");
    for (int g = -2; g < 300; ++g)
        for (int s = -2; s < 300; ++s)
        {
            if (!mine(g * 311 + s + 1000)) continue;
            ctx("system %d signal %d", g, s);
            auto it = sig.find({g, s});
            int want = it == sig.end() ? -1 : it->second;
            expect(sigId(g, s) == want, "a signal has another identity", str("%d, not %d", sigId(g, s), want));
            if (want >= 0) nontrivial(mix(77, want));
            state(mix(g + 5, s + 5));
        }
    std::vector<std::pair<int, int>> ids = {{GnssID_GPS, 0}, {GnssID_SBAS, 1}, {GnssID_Galileo, 2}, {GnssID_Beidou, 3}, {GnssID_Qzss, 5}, {GnssID_Glonass, 6}};
    for (auto& i : ids) expect(i.first == i.second, "a system has another identifier", str("%d, not %d", i.first, i.second));
}

int main()
{
    init();
    fields();
    names();
    numbering();
    return finish();
}
