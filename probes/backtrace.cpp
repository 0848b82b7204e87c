// The unwinder's loop, as the Itanium C++ ABI specifies _Unwind_Backtrace: the callback is called for every frame from the innermost
// outwards until it returns something other than _URC_NO_REASON or there are no more frames.
extern "C" {
    void* env_next_frame();
    int _Unwind_Backtrace(int (*callback)(void*, void*), void* arg) {
        while(void* context = env_next_frame()) {
            if(callback(context, arg) != 0) {
                return 9;
            }
        }
        return 5;
    }
}
