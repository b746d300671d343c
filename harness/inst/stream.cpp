// The stream classes with the member offsets of their private parts (compiled with -fno-access-control).
#include <cstddef>
#include "nbody_data_stream.cpp"
#include "nbody_data_stream_reader.cpp"
extern "C" {
#define OFF(n, c, f) extern const unsigned long nbv_##n; const unsigned long nbv_##n = __builtin_offsetof(c, f)
OFF(w_d, nbody_data_stream, d);
OFF(w_file_n, nbody_data_stream::data, m_file_n);
OFF(w_max, nbody_data_stream::data, m_max_part_size);
OFF(w_ts, nbody_data_stream::data, m_idx_stream);
OFF(w_data, nbody_data_stream::data, m_data);
OFF(w_idx, nbody_data_stream::data, m_idx);
OFF(w_base, nbody_data_stream::data, m_base_name);
OFF(w_header, nbody_data_stream::data, m_header_written);
OFF(r_d, nbody_data_stream_reader, d);
OFF(r_frames, nbody_data_stream_reader::data, m_frames);
OFF(r_base, nbody_data_stream_reader::data, m_file_base_name);
OFF(r_file, nbody_data_stream_reader::data, m_file);
OFF(r_file_n, nbody_data_stream_reader::data, m_file_n);
OFF(r_cur, nbody_data_stream_reader::data, m_current_frame);
OFF(r_coord, nbody_data_stream_reader::data, m_coord_size);
OFF(r_count, nbody_data_stream_reader::data, m_body_count);
OFF(r_box, nbody_data_stream_reader::data, m_box_size);
OFF(r_col, nbody_data_stream_reader::data, m_colors_read);
OFF(r_mass, nbody_data_stream_reader::data, m_masses_read);
OFF(i_frame, nbody_data_stream_reader::data::item, frame);
OFF(i_step, nbody_data_stream_reader::data::item, step);
OFF(i_time, nbody_data_stream_reader::data::item, time);
OFF(i_file_n, nbody_data_stream_reader::data::item, file_n);
OFF(i_pos, nbody_data_stream_reader::data::item, file_pos);
extern const unsigned long nbv_i_size; const unsigned long nbv_i_size = sizeof(nbody_data_stream_reader::data::item);
}
