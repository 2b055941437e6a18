wrt::replay_main!(h_wrap);
