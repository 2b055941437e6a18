wrt::replay_main!(h_sdk);
