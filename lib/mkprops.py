#!/usr/bin/env python3
"""Single source for properties.jsonl (run from /verif: python3 lib/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

T = "src/util/Tensor.cpp"
p("P01", "Tensor storage: shape, addressing, sharing and ownership",
  "After any sequence of creating, resizing, reshaping, transposing, clearing, sharing, copying, moving and releasing tensors, every tensor's element count is the product of its dimensions and each element read back is the one last written to that sample, channel, row and column, directly or through a tensor sharing its memory. "
  "Copies and moved-to tensors hold the source's contents and shape; storage is released exactly once, and never while another live owner uses it.",
  ["histories"], "All histories of tensor operations over a pool of tensors of any shape.",
  "The tests build fixed tensors, fill them once and hand them to a layer; no test shares, moves, transposes, reshapes or reuses a tensor.",
  [T, "include/cn24/util/Tensor.h"],
  [("samples/width/height/maps/elements", "shape", "Tensor.h"), ("data_ptr_, is_shadow_, mmapped_", "who owns the memory", "Tensor.h")],
  [("Resize/Reshape/Shadow/Transpose/DeleteIfPossible", T)],
  ["shape accessors, element access"])
p("P02", "Sample and map copying between tensors",
  "Copying a sample (or one map of a sample) into another tensor whose image area is at least as large makes the addressed target region equal to the source at the top left and zero elsewhere, and leaves every other sample and map of the target unchanged. "
  "A copy with differing channel counts, an out-of-range sample or a smaller target is refused and changes nothing.",
  ["inputs"], "All source and target shapes, contents and sample/map indices.",
  "No test calls either copy operation; padding and refusal depend on every combination of shapes and indices.",
  [T], [("target contents", "what the copy may change", T)], [("CopySample, CopyMap", T)],
  ["return value and full target contents"])
p("P03", "Tensor persistence round trip",
  "Any sequence of tensors written one after another to a file reads back in order with the same shapes and bit-identical elements, whether the file is read sequentially, memory mapped, or some tensors are skipped by reading only their headers. "
  "Reading one tensor consumes exactly its own bytes, and a tensor can be reused for successive reads.",
  ["inputs", "histories"], "All sequences of tensors (including empty ones and any float bit pattern) and all ways of reading each.",
  "No test serializes a tensor; memory mapping at non-page-aligned offsets and mixed header-only reads are never exercised.",
  [T], [("stream position", "consumed bytes", T), ("original_mmap_", "mapping to undo", "Tensor.h")],
  [("Serialize, Deserialize", T)], ["shape, elements and stream position after each read"])
p("P04", "Compressed tensors are lossless",
  "Compressing any tensor and decompressing it yields the same shape and numerically identical elements (bit-identical apart from the sign of zero), also after the compressed form has been written to and read from a file, for every run length and every byte pattern. "
  "The stored length of the compressed form is the number of bytes it occupies, so compressed tensors can be concatenated in a file.",
  ["inputs"], "All tensor contents: all run structures, all byte values including the codec's own marker byte.",
  "No test touches the codec; run lengths at its limits and data resembling its control sequences are rare in ordinary images.",
  ["src/util/CompressedTensor.cpp"], [("compressed bytes", "run-length coded stream", "src/util/CompressedTensor.cpp")],
  [("CompressData/DecompressData, Serialize/Deserialize", "src/util/CompressedTensor.cpp")], ["decompressed tensor, compressed bytes"])
p("P05", "All tensor stream kinds expose the same tensors",
  "An uncompressed stream file, its compressed counterpart and a list of image files describing the same images report the same number of tensors with the same shapes, and deliver the same contents for every sample request into any sufficiently large target, in any order of requests. "
  "Requests outside the stream are refused without touching the target.",
  ["inputs", "histories"], "All tensor sequences, targets and request orders.",
  "No test opens a tensor stream of any kind.",
  ["src/util/FloatTensorStream.cpp", "src/util/CompressedTensorStream.cpp", "src/util/ListTensorStream.cpp", "src/util/TensorStream.cpp"],
  [("tensors_", "stream contents", "src/util/*TensorStream.cpp")],
  [("TensorStream::FromFile, CopySample", "src/util/TensorStream.cpp")], ["reported dimensions, copied samples"])
p("P06", "Images and class colours convert faithfully",
  "An 8-bit RGB image written to a file and read back has the same pixel values, a label image's pixels map to exactly the class whose configured colour they carry (none if no class has it), and colouring a network output paints each pixel with the colour of its highest-scoring class. "
  "With a single class, the label measures closeness to the foreground colour between 1 and -1 and colouring scales the foreground colour with the output.",
  ["inputs"], "All image sizes, pixel colours, class palettes and score maps.",
  "No test reads or writes an image or colours an output.",
  ["src/util/PNGUtil.cpp", "src/util/JPGUtil.cpp", "src/util/Colorize.cpp", "src/util/ListTensorStream.cpp", T],
  [], [("PNG read/write, list stream label conversion, Colorize", "src/util")], ["pixel values"])
p("P07", "Whole-image dataset samples are assembled correctly",
  "For every training or testing index, the assembled sample contains exactly that image and its own label at the top left of the padded area, zero elsewhere; position information runs linearly from 0 to 1 over the image and is 0 in the padding; the weight of a pixel is its position weight times its class weight, and 0 in the padding. "
  "Training and testing samples come only from their own stream, and the padded size is large enough for all images of both and a multiple of 8.",
  ["inputs", "configurations"], "All training/testing streams with images of mixed sizes, class counts, class weights and position weightings.",
  "No test builds a dataset; mixed image sizes, differing train/test counts and single-image sets never occur.",
  ["src/util/TensorStreamDataset.cpp"], [("max_width_/max_height_, tensor counts", "padding geometry", "src/util/TensorStreamDataset.cpp")],
  [("GetTrainingSample/GetTestingSample", "src/util/TensorStreamDataset.cpp")], ["the four sample tensors"])
p("P08", "Patch dataset enumerates every patch exactly once",
  "The patch indices of a dataset are in one-to-one correspondence with the pairs of an image of the set and a patch position inside it, for training and testing separately; each index always yields that window of its image, the label of the window's centre pixel, the window's position and the weight of that pixel. "
  "Indices beyond the set are refused.",
  ["inputs", "configurations"], "All streams of images of mixed sizes, all patch sizes, all indices.",
  "No test builds a patch dataset; index arithmetic over several images of different sizes is never exercised.",
  ["src/util/TensorStreamPatchDataset.cpp"], [("last_sample_", "cumulative patch counts", "src/util/TensorStreamPatchDataset.cpp")],
  [("GetTrainingSample/GetTestingSample", "src/util/TensorStreamPatchDataset.cpp")], ["the four sample tensors"])
p("P09", "Epoch sampling: training permutation and testing sweep",
  "Between two reshuffles the training mode delivers every training sample exactly once, for every batch size, also when batches straddle the boundary; testing mode delivers the testing samples in order exactly once and then only zero-weight filler, and every switch to testing starts again at the first sample without disturbing the training order. "
  "Each delivered slot's image, label, position information and weights belong to the same sample; loss sampling only ever zeroes weights, in training only.",
  ["histories", "configurations"], "All numbers of samples, batch sizes, seeds and interleavings of training passes, testing passes and mode switches.",
  "No test uses a dataset input layer; boundary straddling depends on the relation of batch size and set size over many steps.",
  ["src/net/DatasetInputLayer.cpp"], [("perm_, current_element_, current_element_testing_, testing_", "sampling cursor", "include/cn24/net/DatasetInputLayer.h")],
  [("SelectAndLoadSamples, RedoPermutation, SetTestingMode", "src/net/DatasetInputLayer.cpp")], ["output buffers after each forward pass"])
p("P10", "Networks evaluate every node once, in dependency order",
  "For every acyclic network, a forward pass evaluates every node exactly once and only after all nodes it reads from; a backward pass runs each node that takes part in back-propagation exactly once and only after all nodes that consume it have produced their gradients. "
  "This holds for every order in which the nodes were added and for every pass of a sequence of forward and backward passes.",
  ["configurations", "histories"], "All acyclic topologies, node insertion orders, multi-output nodes and pass sequences.",
  "The tests run one linear network; no test has fan-out, fan-in or more than one pass with order observed.",
  ["src/net/NetGraph.cpp"], [("flag_ff_visited, flag_bp_visited", "per-pass visited marks", "include/cn24/net/NetGraphNode.h")],
  [("FeedForward/BackPropagate recursion", "src/net/NetGraph.cpp")], ["order of node evaluations"])
p("P11", "Gradients obey the chain rule for every topology",
  "After a forward and a backward pass the gradient at every parameter and every buffer is the sum over all consuming paths of the downstream gradient times the local derivative, for every topology with fan-out, fan-in, multiple losses and stacked merges. "
  "A buffer read by several nodes passes the same data to each of them and its gradient is the sum of theirs; repeated passes give the same result.",
  ["configurations", "inputs"], "All topologies of convolutions, sums, concatenations and losses with fan-out; all integer-valued inputs and weights.",
  "The gradient tests examine single layers; accumulation at a fan-out inside a network is never checked.",
  ["src/net/NetGraph.cpp", "src/net/GradientAccumulationLayer.cpp", "src/net/SumLayer.cpp", "src/net/ConcatenationLayer.cpp"],
  [("backprop_connections", "consumers whose gradients are summed", "include/cn24/net/NetGraphNode.h")],
  [("Initialize inserts accumulation nodes", "src/net/NetGraph.cpp")], ["data and delta of all buffers and parameters"])
p("P12", "Saved parameters restore exactly",
  "Saving a network's parameters and loading them into a network with the same structure makes all parameters bit-identical, so both compute the same outputs; loading with a layer limit changes exactly the parameters of the nodes up to that limit and leaves the rest alone; a file that holds less parameters changes only those it holds. "
  "Saving does not change the network and a saved file can be loaded any number of times.",
  ["configurations", "histories"], "All network structures, parameter values, layer limits and save/load histories.",
  "No test saves or loads a network.",
  ["src/net/NetGraph.cpp"], [("parameters of nodes", "what is stored", "src/net/NetGraph.cpp")],
  [("SerializeParameters/DeserializeParameters", "src/net/NetGraph.cpp")], ["parameters and outputs before and after"])
p("P13", "Training applies exactly the configured update rule",
  "Each training iteration changes every parameter by exactly the configured rule: gradients averaged over all samples of all sequential batches of the iteration times the loss sampling probability, plus weighted L1/L2 regularization, scaled by the local and the annealed global learning rate, plus momentum times the previous step (or by QuickProp's step). "
  "The learning rate depends only on the number of iterations since the start, also across epochs, and resetting clears the momentum.",
  ["histories", "configurations"], "All hyperparameter settings and gradient histories over several iterations, epochs and resets.",
  "No test runs the trainer; momentum and sequential batches only show over several iterations.",
  ["src/net/Trainer.cpp"], [("last_deltas_, accumulated_gradients_, last_gradients_", "optimizer state", "include/cn24/net/Trainer.h")],
  [("Epoch, ApplyGradients, CalculateLR", "src/net/Trainer.cpp")], ["parameters after each iteration"])
p("P14", "Training and testing phases are isolated",
  "Testing evaluates without changing any parameter, optimizer state or the training sample order and leaves the layers in training mode; each training epoch performs the configured number of iterations with the configured number of passes each, and the epoch counter advances by exactly one per epoch. "
  "Interrupting training with tests therefore gives the same final parameters as training alone.",
  ["histories"], "All interleavings of training runs, tests, epoch changes and resets, and all iteration/batch/ratio settings.",
  "No test runs a training session.",
  ["src/net/Trainer.cpp", "src/net/NetGraph.cpp"], [("epoch_, testing flags", "session phase", "include/cn24/net/Trainer.h")],
  [("Train, Test, SetEpoch, Reset", "src/net/Trainer.cpp")], ["parameters, pass counts, epoch"])
p("P15", "Statistics are recorded exactly while recording",
  "A statistic's reported value is the one obtained from exactly the updates made while recording since the last reset; updates at other times have no effect, commands that are not legal in the current state change nothing, and taking a snapshot reports, resets and continues recording. "
  "Every registered sink receives every report exactly once, with all statistics in registration order.",
  ["histories"], "All histories of register, initialize, start, stop, update, generate, snapshot, reset and experiment commands.",
  "No test touches the statistics subsystem.",
  ["src/util/StatAggregator.cpp"], [("state_, stats_, hardcoded_stats_", "aggregator state", "include/cn24/util/StatAggregator.h")],
  [("state checks in each command", "src/util/StatAggregator.cpp")], ["values passed to sinks, recording state"])
p("P16", "The statistics log has one complete row per report",
  "For each experiment the log file consists of one header line naming every statistic in order followed by one row per report made during that experiment, with each value in its statistic's column and undefined values left recognisable as such. "
  "Changing the experiment starts a new file, and being unable to open a file does not end the program.",
  ["histories", "fault_sequences"], "All histories of experiments and reports, and unwritable destinations.",
  "No test uses a statistics sink.",
  ["src/util/CSVStatSink.cpp"], [("csv_stream_", "current log file", "include/cn24/util/CSVStatSink.h")],
  [("Initialize, SetCurrentExperiment, Process", "src/util/CSVStatSink.cpp")], ["log file contents"])
p("P17", "Classification statistics count every weighted pixel once",
  "While enabled, a multi-class statistics node adds each pixel's weight to exactly the cell of its predicted and its true class, and a binary one to exactly one of true/false positive/negative for every threshold; the reported recognition rates, overlap, precision, recall, false positive rate and F-measure are the defining ratios of those counts. "
  "Disabled nodes count nothing and a reset starts from zero.",
  ["inputs", "histories"], "All outputs, labels, weights, shapes, class counts, thresholds and enable/disable/reset histories.",
  "No test uses a statistics layer.",
  ["src/net/ConfusionMatrixLayer.cpp", "src/net/BinaryStatLayer.cpp"], [("matrix_, counts", "accumulated counts", "src/net/ConfusionMatrixLayer.cpp")],
  [("FeedForward, Reset, UpdateAll", "src/net/ConfusionMatrixLayer.cpp")], ["reported statistics"])
p("P18", "Convolution computes and differentiates correctly",
  "For every kernel size, stride, padding, group count and batch, the convolution output equals the defining weighted sum plus bias of the zero-padded input, and its backward pass yields exactly the gradients with respect to input, weights and biases of that sum. "
  "The output shape follows from the same parameters, and repeated passes do not influence each other.",
  ["inputs", "configurations"], "All kernel/stride/padding/group/batch configurations with integer-valued tensors (exact arithmetic).",
  "Gradient tests cover a few square configurations with 15% of elements allowed to be wrong; forward values are never compared to the definition.",
  ["src/net/ConvolutionLayer.cpp", "src/math/TensorMath.cpp"], [("im2col/sms buffers", "lowered matrices", "src/net/ConvolutionLayer.cpp")],
  [("FeedForward/BackPropagate, GEMM, GEMV, IM2COL, COL2IM, SMS", "src/math/TensorMath.cpp")], ["output data, input/weight/bias deltas"])
p("P19", "Pooling selects the maximum and routes its gradient",
  "For every window and stride, each pooled value is the maximum of exactly its window of the same map and sample, and the backward pass adds the whole output gradient to one input element attaining that maximum and nothing to the others, summing where windows overlap. "
  "Output shapes follow from window and stride.",
  ["inputs", "configurations"], "All window/stride/shape configurations and contents including negative values and ties.",
  "Gradient tests cover a few shapes and tolerate 15% wrong elements.",
  ["src/net/MaxPoolingLayer.cpp", "src/net/AdvancedMaxPoolingLayer.cpp"], [("maximum_mask_", "selected elements", "src/net/MaxPoolingLayer.cpp")],
  [("FeedForward/BackPropagate", "src/net/MaxPoolingLayer.cpp")], ["output data, input deltas"])
p("P20", "Geometry layers place every element correctly",
  "Bordering, upscaling, downsampling, concatenation, summation and position-prior layers place or combine every input element exactly where their geometry says, for every shape and batch, and their backward passes return to each input exactly the sum of the gradients of the output elements it contributed to. "
  "Inputs whose shapes do not fit are refused.",
  ["inputs", "configurations"], "All shapes, borders, factors and contents.",
  "Only the bordering and accumulation layers have gradient tests; upscaling, downsampling, concatenation, sum and prior have none.",
  ["src/net/ResizeLayer.cpp", "src/net/UpscaleLayer.cpp", "src/net/InputDownSamplingLayer.cpp", "src/net/ConcatenationLayer.cpp", "src/net/SumLayer.cpp", "src/net/SpatialPriorLayer.cpp", "src/net/GradientAccumulationLayer.cpp"],
  [], [("CreateOutputs, Connect, FeedForward, BackPropagate", "src/net")], ["output data, input deltas"])
p("P21", "Activations and loss are exact functions with matching gradients",
  "Activation layers apply their function to every element independently and return the output gradient times that function's derivative; normalization divides every element by the configured function of its neighbourhood. "
  "The loss is half the weighted sum of squared differences and its gradient is exactly the weighted difference, so elements with weight zero contribute to neither.",
  ["inputs"], "All shapes, contents and weights.",
  "Gradient tests tolerate 15% wrong elements and never compare forward values; the loss layer has no test.",
  ["src/net/ActivationFunctions.cpp", "src/net/NonLinearityLayer.cpp", "src/net/HMaxActivationFunction.cpp", "src/net/ErrorLayer.cpp", "src/net/LocalResponseNormalizationLayer.cpp"],
  [], [("FeedForward, BackPropagate, CalculateLossFunction", "src/net")], ["output data, deltas, loss value"])
p("P22", "Layer descriptors are parsed, validated and seeded consistently",
  "A textual layer descriptor is accepted exactly if it follows the documented grammar, its type and configuration parts are extracted unchanged, and the layer built from it has exactly the parameters written in it, with documented defaults for those left out. "
  "Injecting a seed sets the seed parameter and changes nothing else in the descriptor, and unknown or malformed descriptors produce no layer.",
  ["inputs"], "All descriptors over the grammar and their near misses.",
  "The tests check a handful of literal descriptors.",
  ["src/net/LayerFactory.cpp", "src/util/ConfigParsing.cpp"], [], [("IsValidDescriptor, ExtractConfiguration, ExtractLayerType, InjectSeed, ConstructLayer", "src/net/LayerFactory.cpp")],
  ["returned strings and layers"])
p("P23", "A network description yields the network it describes",
  "For every network description the assembled graph contains the described layers in order with the described parameters and connections (including stack branches, concatenation, sums and position priors), and a fully convolutional network's output has the same image size as its input whenever the size is a multiple of the total downsampling factor. "
  "The patch size computed for patch-wise training is one for which the same description yields a single output position, and both forms of the network, given equal parameters, compute the same value for the same window.",
  ["configurations", "programs"], "All network descriptions over the supported layer lines; both training methods.",
  "No test parses a network description.",
  ["src/factory/ConfigurableFactory.cpp"], [("receptive_field_, factor, stacks", "geometry accumulated while parsing", "src/factory/ConfigurableFactory.cpp")],
  [("constructor geometry pass, AddLayers", "src/factory/ConfigurableFactory.cpp")], ["graph nodes, connections, buffer shapes, outputs"])
p("P24", "Configuration files mean what they say",
  "Training settings and dataset descriptions are read so that each documented key sets exactly its own value regardless of the order of lines, comments and unrelated keys, keys that are absent keep their defaults, and the class names, colours and weights end up in file order with matching positions. "
  "Values are read in full in their documented notation.",
  ["inputs", "configurations"], "All configuration files composed of the documented keys in any order with any values.",
  "No test reads a settings or dataset file.",
  ["src/factory/ConfigurableFactory.cpp", "src/util/ConfigParsing.cpp", "src/util/TensorStreamDataset.cpp"],
  [], [("Parse*IfPossible, InitOptimalSettings, CreateFromConfiguration", "src/util/ConfigParsing.cpp")], ["parsed settings and dataset attributes"])
p("P25", "Runs are reproducible from their seeds",
  "Building and training the same network twice from the same description, data and seeds yields bit-identical initial and trained parameters, and weights of different layers and different seeds differ. "
  "Reinitialising the weights leaves every parameter finite and within the documented initialisation range.",
  ["histories", "configurations"], "All descriptions, seeds and repetition histories.",
  "No test initialises or trains a network twice and compares.",
  ["src/net/ConvolutionLayer.cpp", "src/net/NetGraph.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/DatasetInputLayer.cpp"],
  [("rand_", "per-layer generator", "src/net/ConvolutionLayer.cpp")], [("seeding in factory, OnLayerConnect", "src/net/ConvolutionLayer.cpp")], ["parameters"])
p("P26", "Incomplete networks are recognised",
  "A network is reported complete exactly if it has an input node and an output node, every node has a layer and a name and is not input and output at once, and every connection leads from an existing output buffer of a node of the network. Any other network is reported as incomplete, whatever else it contains and in whatever order its nodes were added.",
  ["configurations"], "All graphs, with and without dangling, foreign or nonexistent connections.",
  "No test asks for completeness of a defective graph.",
  ["src/net/NetGraph.cpp"], [], [("IsComplete", "src/net/NetGraph.cpp")], ["the completeness answer"])
p("P27", "The training program executes its command scripts faithfully",
  "For every script, the commands are executed in order: training advances the epoch and the parameters, testing changes neither, saving writes the current parameters, loading restores them so that a following test reports the same statistics as before saving, setting the epoch and resetting have their documented effect, unknown commands are skipped, and the program ends at quit or at the end of the script or of its input. "
  "Statistics rows are produced exactly for the training epochs and tests run.",
  ["histories", "programs"], "All command scripts.",
  "No test runs the training program.",
  ["tools/trainNetwork.cpp"], [("recording state, epoch, parameters", "session state", "tools/trainNetwork.cpp")], [("parseCommand", "tools/trainNetwork.cpp")],
  ["parameter files and statistics files written by the program"])
p("P28", "Dataset conversion tools agree with each other",
  "Converting an image list directly to a compressed stream gives the same tensors as converting it to an uncompressed stream and compressing that, truncating a stream keeps exactly its first tensors, and every converted pair holds the image and the label classes of its colours. "
  "Image pairs of differing size are skipped as a pair.",
  ["inputs"], "All image lists, palettes and truncation lengths.",
  "No test runs a conversion tool.",
  ["tools/makeTensorStream.cpp", "tools/makeCompressedTensorStream.cpp", "tools/compressTensorStream.cpp", "tools/tensorStreamTool.cpp"],
  [], [("main of each tool", "tools")], ["output files"])
p("P29", "Image patches are extracted with mirrored borders",
  "Extracting patches from an image yields one patch per pixel whose element at each offset is the image pixel at that offset from the centre, mirrored at the borders; with mean subtraction each patch sums to zero and is otherwise unchanged, and the helper tensor holds the patch's position confined to the image. "
  "Extracted labels carry, for every pixel, a label of the image (read at the pixel, or throughout one pixel right of and below it) and weight zero exactly for the ignored class; the source is left unchanged.",
  ["inputs"], "All image and patch sizes and contents.",
  "No test extracts patches.",
  ["src/util/Segmentation.cpp"], [], [("ExtractPatches, ExtractLabels", "src/util/Segmentation.cpp")], ["patch, label, helper and weight tensors"])

p("P30", "Classified images show the network's decision at every pixel",
  "The classification program labels an image of any size with a trained network: the output has exactly the input's size, and every pixel carries the colour of the class whose score, computed by the described network with the saved parameters "
  "from the zero-padded image and its position maps, is highest there (for a single class, the colour shaded by the score); nothing outside of the image or of the program's memory is involved.",
  ["inputs", "history"], "All image sizes and contents, networks, parameters, palettes, and sequences of them.",
  "No test runs the classification program; padding, position maps, evaluation, upscaling, colouring and cropping have to fit together.",
  ["tools/classifyImage.cpp", "src/factory/ConfigurableFactory.cpp", "src/net/NetGraph.cpp", "src/util/Colorize.cpp"], [], [("main", "tools/classifyImage.cpp"), ("Dataset::Colorize", "src/util/Colorize.cpp"), ("ConfigurableFactory::AddLayers", "src/factory/ConfigurableFactory.cpp")], ["colours, network description, parameters", "image, scores, output image"])

p("P31", "Tensor math operations compute their definitions",
  "The operations the layers are built from compute their mathematical definition for every geometry: matrix products with and without transposition, scaling, leading dimensions, strides and sample offsets, unfolding of image windows into columns and its adjoint, exchanging samples and maps, "
  "enlarging, reducing, adding and filling tensors. What is multiplied by zero does not matter, nothing outside of the result is written, operands are not changed, and operands that do not fit are refused.",
  ["inputs"], "All sizes, offsets, strides, factors and contents.",
  "Tests see these operations only through a few layer shapes, all of which use a handful of the combinations.",
  ["src/math/TensorMath.cpp"], [], [("GEMM, GEMV, IM2COL, COL2IM, SMS, DOWN, UP, ADD, SETSAMPLE", "src/math/TensorMath.cpp")], ["tensor elements"])
p("P32", "The gradient check reports exactly the wrong gradients",
  "Checking a network's gradients tests every (skip+1)-th parameter of every tensor of every layer that allows it, compares the derivative the layer claims to the central difference of the loss, and reports how many agree within 2 per cent, within 20 per cent, or fail; "
  "it ends the program exactly if asked to and something failed. Checking a single tensor of a layer passes exactly if more than 85 per cent agree within 20 per cent (or all do). No check changes a parameter.",
  ["inputs", "history"], "All networks, parameters, claimed derivatives, step sizes and sequences of checks.",
  "The tests use the gradient check as their oracle, but nothing tests the check: it could pass everything.",
  ["src/util/GradientTester.cpp"], [], [("TestGradient, DoGradientTest", "src/util/GradientTester.cpp")], ["reported counts, verdicts, parameters"])

p("P33", "Drawings of networks show every node, buffer and connection",
  "The drawing of an initialized network contains exactly one record per node of the network, carrying its name, its layer's description, its output buffers with their current sizes, red for inputs and blue for outputs, and exactly one edge per connection, from the port of the buffer that is read to the node reading it, "
  "dotted exactly if no gradients flow back along it.",
  ["configurations"], "All networks, including the nodes added when they are initialized.",
  "No test draws a network.",
  ["src/net/NetGraph.cpp"], [], [("PrintGraph", "src/net/NetGraph.cpp")], ["the drawing"])
p("P34", "Training and test reports state what was done",
  "Each report of a training or test run carries the epoch, the number of parameters and of iterations it covers, the average loss per label pixel over exactly the iterations recorded since the previous report (training losses relative to the loss sampling probability and to the number of sequential batches), how many label pixels and samples they went through, and for QuickProp the shares of its cases over all updates; what did not happen is reported as undefined. "
  "Training makes one report per epoch if asked to, and every statistics layer is updated and printed exactly once per test and, if enabled during training, per epoch, with the right epoch and phase.",
  ["histories", "configurations"], "All histories of training, tests, recordings and resets, and all settings of batches, iterations and ratios.",
  "No test runs a training session or looks at a report.",
  ["src/net/Trainer.cpp"], [("stat_aggloss_, stat_qp_case*_, stat_sps_, stat_fps_, hardcoded_stats_", "what is reported", "include/cn24/net/Trainer.h")],
  [("Train, Test, Epoch, ApplyGradients", "src/net/Trainer.cpp")], ["reports passed to sinks"])
p("P35", "The console shows every defined statistic of each report",
  "With the console among the sinks, each report is shown once, under a heading with the epoch: one line for each statistic known at initialization and defined in this report, in registration order, with its description, its value and its unit; undefined statistics are left out, and nothing is shown between reports.",
  ["histories"], "All histories of register, initialize, start, stop, update, generate, snapshot, reset and experiment commands.",
  "No test uses a statistics sink.",
  ["include/cn24/util/ConsoleStatSink.h", "src/util/StatAggregator.cpp"], [], [("Initialize, Process", "include/cn24/util/ConsoleStatSink.h")], ["standard output during a report"])
p("P36", "The dataset analysis reports the class distribution",
  "Analysing a dataset counts the pixels of each class over exactly the training images (testing images and the padding never count): for each class, in order and by name, how many pixels, which share of all, the factor that would give every occurring class an equal share, and the count after applying it; "
  "once without and once with the class weights, each weight applied exactly once.",
  ["inputs"], "All datasets: image sizes, label contents, class counts, weights, file formats and missing sets.",
  "No test runs the analysis.",
  ["tools/tensorStreamStats.cpp", "src/util/TensorStreamDataset.cpp"], [], [("main", "tools/tensorStreamStats.cpp"), ("GetTrainingSample", "src/util/TensorStreamDataset.cpp")], ["the dataset's files", "standard output"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
for x in P: assert len(x["title"]) <= 80, x["title"]
