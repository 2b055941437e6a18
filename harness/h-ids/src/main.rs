wrt::replay_main!(h_ids);
