wrt::replay_main!(h_validate);
