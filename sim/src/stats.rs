//! What a run did, for the evidence file.
macro_rules! stats {
    ($($name:ident = $text:expr),+ $(,)?) => {
        #[derive(Clone, Copy)]
        #[allow(non_camel_case_types)]
        pub enum St { $($name),+ }
        pub const NAMES: &[&str] = &[$($text),+];
    };
}
stats! {
    sim_us = "simulated_time_us",
    events = "events",
    polls = "polls",
    frames = "frames_decoded",
    accepted = "packets_accepted",
    errors = "frames_refused",
    needs = "requests_for_more",
    encodes = "packets_encoded",
    refusals = "encodes_refused",
    bytes = "bytes_on_the_wire",
    segments = "segments",
    f_short_write = "fault_short_write",
    f_split = "fault_segment_split",
    f_edge_cut = "fault_cut_near_frame_boundary",
    f_coalesce = "fault_coalesced_segments",
    f_stall = "fault_stall",
    f_lazy = "fault_delayed_poll",
    f_reset = "fault_connection_reset",
    f_reset_undrained = "fault_reset_with_unread_bytes",
    f_restart = "fault_endpoint_restart",
    f_hostile = "fault_hostile_frame",
    f_flip = "fault_in_flight_corruption",
    f_io = "fault_failing_system_calls",
    f_refused_send = "fault_unsendable_packet",
    f_timeout = "fault_spurious_resend_timeout",
    solo = "solo_reruns",
    isolated = "isolated_redecodes",
    postops = "post_accept_operations",
    sessions = "sessions_opened",
    published = "messages_published",
    delivered = "messages_delivered",
    pings = "keepalive_exchanges",
    routed = "message_copies_routed",
    wills = "wills_published",
    giants = "packets_of_the_largest_size",
    timers = "broker_timers_expired",
    replays = "runs_played_again_for_their_memory",
    soaks = "growths_followed_up",
    calls = "library_calls_by_threads",
    points = "scheduling_points_inside_calls",
    static_accesses = "accesses_to_writable_static_memory",
    waits = "waits_for_another_thread",
    f_preempt = "fault_interruption_inside_a_call",
}
pub const N: usize = NAMES.len();

#[derive(Clone)]
pub struct Stats(pub [u64; N]);
impl Stats {
    pub fn new() -> Stats {
        Stats([0; N])
    }
    #[inline]
    pub fn inc(&mut self, s: St) {
        self.0[s as usize] += 1;
    }
    #[inline]
    pub fn add(&mut self, s: St, n: u64) {
        self.0[s as usize] += n;
    }
}
