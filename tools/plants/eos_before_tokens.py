PROPERTY = "C27"
NEEDS = "the consumer asking for tokens while the background thread tokenizes the last batch"
BREAKS = "the end of the stream is announced before the tokens of the last batch are in the buffer, so they are lost"
EDITS = [("mixtera/utils/tokenizing_iterator.py", "            if texts:\n                encoded_batch = self.tokenizer.batch_encode_plus(\n                    texts,\n                    return_attention_mask=False,\n                    return_token_type_ids=False,\n                )\n                if self.use_bos_token:\n", "            if local_eos:\n                with self.lock:\n                    self.eos = True\n                    self.condition.notify_all()\n\n            if texts:\n                encoded_batch = self.tokenizer.batch_encode_plus(\n                    texts,\n                    return_attention_mask=False,\n                    return_token_type_ids=False,\n                )\n                if self.use_bos_token:\n"),
         ("mixtera/utils/tokenizing_iterator.py", "                    if local_eos:\n                        self.eos = True\n", "")]
DEMO = '''
from mxdemo import *
from mixtera.utils.tokenizing_iterator import ThreadedTokenizingIterator


class Tok:
    eos_token_id = bos_token_id = 0

    def batch_encode_plus(self, texts, **kw):
        time.sleep(0.5)
        return {"input_ids": [[int(t)] * 4 for t in texts]}


def main(d):
    it = ThreadedTokenizingIterator(iter(["1", "2", "3"]), Tok(), 3, 2, False, False, False, False)
    got = []
    while True:
        try:
            got.append(next(it))
        except StopIteration:
            break
    if got != [[1] * 4, [2] * 4, [3] * 4]:
        return f"the token windows are {got}"


run_demo(main)
'''
